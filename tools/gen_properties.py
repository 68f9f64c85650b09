#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "client/model/"
p("P01", "No score text crashes or hangs the client",
  "For every input text, parsing ends with either a syntax tree or a reported error, and evaluating a tree that parsed ends with either a score or a reported error. No text makes the client panic or run forever (a score that asks for astronomically many repetitions excepted).",
  ["inputs"], "every string over the scanner's character classes up to a length bound, every sequence of tokens / S-expression elements up to a bound, and every truncation of larger programs",
  "The tests feed a fixed list of valid snippets; totality is a claim about all inputs, most of them malformed.",
  ["client/parser/scanner.go", "client/parser/parser.go", "client/model/lisp.go", "client/model/cram.go"],
  [("scan", "client/parser/scanner.go"), ("Parse / ParseString", "client/parser/parser.go"), ("ASTNode.Updates", "client/parser/ast.go"), ("LispList.Eval", "client/model/lisp.go")])
p("P02", "Notes are placed end to end with exactly their written durations",
  "In every score, each note or rest starts where the part's previous note, rest or chord ended and lasts exactly its written length (note length with any number of dots, ties, milliseconds or seconds, or a positive decimal length) at the part's current tempo; a length left out repeats the last one used. A note sounds for its length times the current quantization, or its full length when slurred; the notes of a chord start together and the chord advances the part by its shortest member.",
  ["programs"], "all sequences of notes, rests, chords, duration and tempo/quantization changes over a closed alphabet up to a bound",
  "Timing is a function of the whole preceding history of the part (sticky lengths, tempo, quantization, chords); tests check a few dozen fixed sequences.",
  [M+"note.go", M+"chord.go", M+"duration.go", M+"attributes.go", "client/parser/ast.go"],
  [("addNoteOrRest", M+"note.go"), ("Chord.UpdateScore", M+"chord.go"), ("Duration.Ms, NoteLength.Beats", M+"duration.go")])
p("P03", "A cram expression fits exactly into its duration",
  "A cram expression occupies exactly its own duration (or the part's current default length when none is written) for any nesting and any content that has a length, keeping the relative lengths of the events inside it. Afterwards the part's default length is the cram's written duration if there is one, and otherwise what it was before the cram.",
  ["programs"], "all cram trees over a closed alphabet of events, chords, repeats, attribute changes and nested crams up to a size bound",
  "The scale factor comes from a separate dry run of the contents that must agree with the real run for every nesting; tests cover a handful of flat and once-nested crams.",
  [M+"cram.go", M+"note.go", M+"chord.go", M+"repeat.go"],
  [("timeScale / innerDurationMs / Cram.UpdateScore", M+"cram.go"), ("DurationMs of every event", M)])
p("P04", "Repeats and numbered endings equal their written-out expansion",
  "Repeating an event or sequence n times produces exactly the events that writing it n times would produce, for any nesting and any number of active instruments. An event marked with repetition numbers is performed exactly on those repetitions of the innermost repeat that encloses it, and is skipped otherwise.",
  ["programs"], "all trees of notes, sequences, repeats and repetition-numbered events up to a size bound, for one and several active parts",
  "The expansion depends on nesting, on how the counter of an outer repeat survives an inner one and on the number of active parts; tests cover single-level endings on one instrument.",
  [M+"repeat.go", M+"repetitions.go", M+"event_sequence.go", "client/parser/parser.go"],
  [("Repeat.UpdateScore / DurationMs", M+"repeat.go"), ("OnRepetitions.UpdateScore / AppliesTo", M+"repetitions.go")])
p("P05", "Voices start together, are independent, and rejoin at the last to finish",
  "Every voice of a voice group starts at the offset and with the attributes the part had when the group began, and nothing done in one voice affects another; returning to a voice continues it where it left off. When the group ends (explicitly or because another part is declared) the part continues from the state of the voice that finished last.",
  ["programs"], "all sequences of voice markers, group ends, part declarations and events up to a bound, for one and several active parts",
  "Which voice's state survives and what a new voice inherits depends on the whole history of the group; tests check a few two- or three-voice scores.",
  [M+"voice.go", M+"part.go"],
  [("VoiceMarker / VoiceGroupEndMarker UpdateScore", M+"voice.go"), ("Part.Clone", M+"part.go")])
p("P06", "Markers name one moment; jumping to it places the part exactly there",
  "Placing a marker records the current offset of the active parts, and jumping to it from any part at any later point puts that part exactly at the recorded offset. Using a marker that was never placed, placing one outside any part, or placing one where the active parts are at different offsets is reported as an error and defines nothing.",
  ["programs"], "all sequences of marker definitions, jumps, part switches and notes over two names and two parts up to a bound",
  "Correctness depends on the interleaving of parts that define and use markers; tests cover single jumps.",
  [M+"marker.go", M+"score.go"],
  [("Marker.UpdateScore, AtMarker.UpdateScore", M+"marker.go")])
p("P07", "A variable stands for the events it was defined with",
  "Referring to a variable produces exactly the events that writing its definition in place would produce, where references inside the definition mean the values those variables had at the moment of definition. Redefining a variable affects only later references and definitions; referring to or capturing an undefined variable is reported as an error.",
  ["programs"], "all sequences of definitions, redefinitions and references over two names up to a bound, with references inside sequences, crams, chords, repeats and voices",
  "Capture at definition time versus lookup at use time differ only in programs that redefine or nest variables; tests have a few fixed ones.",
  [M+"variable.go", M+"event_sequence.go", "client/parser/parser.go"],
  [("VariableDefinition / VariableReference UpdateScore and VariableValue", M+"variable.go")])
p("P08", "A part declaration selects exactly the instruments it names",
  "Every part declaration makes active exactly the instances its names denote: an existing unnamed instance of that instrument, an existing alias or group, a member of a group reached with a dot, or new instances where the rules say so, without duplicates. Ambiguous, conflicting or unknown names are reported as errors, and every instrument name or short name denotes the same stock instrument each time.",
  ["programs"], "all sequences of declarations over two instruments, two aliases, groups and dotted names up to a bound, plus every stock instrument name",
  "Instance assignment depends on every earlier declaration; tests sample some of the documented combinations.",
  [M+"part.go", M+"instruments.go", M+"score.go"],
  [("PartDeclaration.UpdateScore / determineParts", M+"part.go"), ("stockInstrument", M+"instruments.go")])
p("P09", "Attribute changes reach exactly the right notes of the right parts",
  "A local attribute change affects all later notes of the active parts and of no other part. A global change recorded at some offset takes effect in every part when that part's timeline reaches the offset, wherever in the text the part's events were written afterwards, in the order the changes were written, except that a change of the same attribute made locally by a part at that point takes precedence for that part.",
  ["programs"], "all sequences of local and global changes, notes, chords and part switches over three attributes and two parts up to a bound; every attribute singly",
  "Which value a note sees depends on the order and offsets of changes in several parts; tests cover a few fixed scores.",
  [M+"attributes.go", M+"note.go", M+"chord.go"],
  [("AttributeUpdate / GlobalAttributeUpdate UpdateScore, ApplyGlobalAttributes, InWindow", M+"attributes.go")])
p("P10", "Written pitch maps to the right MIDI note",
  "For every note letter, accidentals, octave, key signature and transposition, the note sounds at the pitch music theory assigns: middle C in octave 4 is 60, explicit accidentals (including a natural) replace the key signature's, which otherwise applies to every octave, and transposition is added last. A pitch outside 0-127 is an error, never a different note.",
  ["inputs", "programs"], "all letters x accidentals x octaves x transpositions x every key signature form (string, list and scale name) and all octave-change sequences up to a bound",
  "The mapping is a product of five dimensions; tests sample a few points of it.",
  [M+"pitch.go", M+"key.go", M+"note.go", M+"lisp.go"],
  [("CalculateMidiNote", M+"pitch.go"), ("KeySignatureFromScale / FromCircleOfFifths", M+"key.go")])
p("P11", "Simultaneous notes of different parts never share a MIDI channel",
  "In every score the client accepts, two notes of different non-percussion parts that sound at the same time are on different channels, percussion is always and only on channel 9, and a part that chose a channel explicitly plays on that channel. A score is rejected for lack of channels only at a note that overlaps notes of other parts on all 15 non-percussion channels, or whose part's explicitly chosen channel another part is using at that point.",
  ["programs"], "all small multi-part scores over overlapping and disjoint note patterns, explicit channels and percussion, with the 15 channels filled or nearly filled",
  "Channel choice is a history-dependent allocator; tests cover a few fixed orchestrations.",
  [M+"midi.go", M+"note.go"],
  [("determineMidiChannel / complexCheck / simpleCheck", M+"midi.go")])
p("P12", "Layout does not change the music",
  "Spaces, tabs, line breaks, comments and barlines between the elements of a score never change the resulting events, and neither does the way a file's lines are ended (line feed, or carriage return and line feed). Text in a comment is never interpreted.",
  ["inputs"], "all insertions of every kind of layout at every element boundary of a set of programs covering the grammar, singly and in pairs, and every layout of short token sequences",
  "Layout can be put at any boundary of any construct; tests contain one layout of each construct.",
  ["client/parser/scanner.go", "client/parser/parser.go"],
  [("scanToken, consumeSpaces, parseComment", "client/parser/scanner.go")])
p("P13", "Reported source positions point at the construct they describe",
  "Every element of the syntax tree carries the line and column where that element starts in the source (a repeat, repetition list or variable definition: its operator), whatever precedes it on the line or in the file. Every error in a score is reported at the position of the construct that caused it (an error inside an S-expression: a position within that S-expression).",
  ["inputs", "programs"], "all sequences of elements and layout (line breaks, comments, tabs, wide characters) up to a bound; an error injected at every position of every such program",
  "Positions are a running function of everything scanned before; tests check a few tokens and errors.",
  ["client/parser/scanner.go", "client/parser/ast.go", "client/model/source_context.go"],
  [("scanner line/column bookkeeping", "client/parser/scanner.go"), ("AldaSourceError", "client/model/source_context.go")])
p("P14", "Formatting preserves the music and is stable",
  "For every valid score, the formatted text parses to the same music as the original, at every line-wrap length and (blank) indentation, and keeps every comment-free element. Formatting formatted text changes nothing.",
  ["programs", "configurations"], "all programs of a closed grammar alphabet up to a bound x wrap lengths x indents",
  "The formatter re-renders every construct and may break lines anywhere; tests compare a few fixed outputs.",
  ["client/parser/format.go"],
  [("FormatASTToCode / formatter", "client/parser/format.go")])
p("P15", "What is sent to a player is exactly the score",
  "Playing or exporting a score sends one note message per note with its track, channel, start time, pitch, duration, audible duration and velocity, after that track's instrument, volume and panning at or before the note's time and whenever they change, and every tempo change. Play, stop, export and shutdown requests reach the player as exactly the corresponding commands, and a player used once is told to shut down no earlier than the last note ends.",
  ["programs", "configurations"], "all small scores over parts, patches, volumes, pannings and tempo changes x transmission options",
  "The bundle is a merge of per-channel state changes and events; tests do not exercise the transmitter.",
  ["client/transmitter/osc.go", "client/transmitter/transmitter.go"],
  [("ScoreToOSCBundle", "client/transmitter/osc.go")])
p("P16", "An excerpt plays exactly the chosen span, starting at time zero",
  "Playing from one point to another (minute:second or a marker) sends exactly the notes that start at or after the first point and before the second, each shifted so that the first point is time zero, with the instrument, volume and panning state they need. Load-only sends no play command, and an invalid or undefined point is an error.",
  ["programs", "configurations"], "all small scores x all from/to pairs around every event boundary x load-only/one-off/sync options",
  "Boundary behaviour has to hold for every cut of every score; tests do not exercise it.",
  ["client/transmitter/osc.go", "client/transmitter/transmitter.go", M+"score.go"],
  [("ScoreToOSCBundle, TransmitFrom/TransmitTo/SyncOffsets/LoadOnly/OneOff", "client/transmitter/osc.go"), ("InterpretOffsetReference", M+"score.go")])
p("P17", "The exported tempo map is the score's tempo history",
  "The tempo map of a score contains 120 at time zero unless changed there, every tempo the first declared part sets locally at the time it sets it, and every global tempo change (a global metric modulation multiplies the last global tempo), as the effective tempo from that time on; nothing else.",
  ["programs"], "all sequences of local/global tempo changes and metric modulations, notes, voices and part switches up to a bound",
  "The map is assembled from two histories; tests cover few cases.",
  [M+"score.go", M+"attributes.go"],
  [("TempoItinerary", M+"score.go"), ("RecordTempoValue", M+"part.go")])
p("P18", "Entering a score piece by piece gives the same score as entering it whole",
  "Evaluating the elements of a score in any number of successive inputs yields the same notes, markers, variables, parts and final state as evaluating the text at once, so an interactive session is equivalent to the file made of its inputs.",
  ["histories", "programs"], "every program of a closed alphabet up to a bound x every way of cutting it into inputs",
  "It quantifies over all cut points of all programs; tests only evaluate whole strings.",
  ["client/parser/parser.go", M+"score.go", "client/repl/server.go"],
  [("Score.Update", M+"score.go"), ("updateScoreWithInput / evalAndPlay", "client/repl/server.go")])
p("P19", "An input that fails leaves the session as it was",
  "When an input sent to the interactive server cannot be parsed or evaluated, the client is told why, and the session's score, text and later results are as if that input had never been sent.",
  ["histories", "fault_sequences"], "every history of good and failing inputs over a closed alphabet up to a bound, the failure at every position inside an input",
  "It quantifies over where inside an input the failure occurs and what is evaluated later; the server's tests never fail an input.",
  ["client/repl/server.go", M+"score.go", M+"chord.go"],
  [("updateScoreWithInput, load", "client/repl/server.go")])
p("P20", "The REPL server answers every request exactly once",
  "Every request a client sends, valid or malformed, unknown or lacking parameters, alone, pipelined or split across packets, and from any number of connections, receives exactly one response on its own connection carrying its own id and session, with status done and an error report if it failed. No request stops the server from answering later ones, and requests of different clients do not interleave their effects.",
  ["histories", "schedules", "fault_sequences"], "all sequences of operations up to a bound, every field of every operation missing or of the wrong type, every split point of the byte stream, every interleaving of two clients' requests",
  "Protocol totality ranges over all request sequences and framings; there are no tests of the server.",
  ["client/repl/server.go", "client/repl/validation.go"],
  [("handleRequests / processRequest / respond*", "client/repl/server.go"), ("validation", "client/repl/validation.go")])
p("P21", "The session's score survives player loss and each input plays once",
  "Each successful input makes exactly its own new notes play, once, in time order after what is already scheduled, and replaying plays the whole score or the requested span. Losing, replacing or lacking a player never loses, duplicates or corrupts any part of the session's score.",
  ["histories", "fault_sequences"], "all sequences of evaluate / replay / new score / load / player failure events up to a bound",
  "It ranges over the points at which the player can fail; there are no tests of it.",
  ["client/repl/server.go", "client/repl/player_management.go"],
  [("evalAndPlay / replay / withTransmitter", "client/repl/server.go"), ("managePlayers", "client/repl/player_management.go")])
p("P22", "Only live, matching, ready players are used; the pool is filled exactly",
  "A player is selected only if its state file says it is ready and it belongs to this client version; finding by id returns that player or an error; expired or unreadable state is never selected and does not break discovery of the others. Filling the pool starts exactly as many players as are missing.",
  ["configurations", "fault_sequences"], "all small sets of state files over state/version/age/content/validity, all truncation points of a state file",
  "Discovery must be right for any directory content; tests do not exercise it.",
  ["client/system/process_management.go"],
  [("ReadPlayerStates / FindAvailablePlayer / FindPlayerByID / FillPlayerPool", "client/system/process_management.go")])
p("P23", "MusicXML import keeps the music",
  "For every supported MusicXML score, the imported Alda text plays the same pitches at the same times for the same lengths in the same parts as the MusicXML describes, including chords, voices, ties (between adjacent notes or chords), slurs, backup/forward, grace and cue notes (which are silent), key changes, transposition, percussion, dynamics (in parts with a single voice), repeats and numbered endings. The same input always yields the same text, and unsupported or malformed input yields an error or a warning, never a crash, a hang, or text that Alda rejects.",
  ["inputs"], "all MusicXML documents over a closed alphabet of note, rest, chord, backup, forward, attribute and repeat elements up to a bound",
  "Import correctness depends on the sequence of cursor moves; tests have a few fixed files.",
  ["client/interop/musicxml/importer/importer.go", "client/interop/musicxml/importer/handlers.go", "client/interop/musicxml/importer/optimizer.go", "client/interop/musicxml/importer/util.go"],
  [("ImportMusicXML", "client/interop/musicxml/importer/importer.go"), ("handlers", "client/interop/musicxml/importer/handlers.go")])
p("P24", "Generated code means what the score elements mean",
  "Turning a list of score elements into Alda source and parsing that source again yields the same music. The same elements always yield the same source.",
  ["programs"], "all lists/trees of score elements of a closed alphabet up to a bound",
  "Code generation must be the inverse of parsing for every tree; tests sample a few.",
  ["client/parser/gen.go", "client/parser/ast.go", "client/parser/format.go"],
  [("GenerateASTFromScoreUpdates", "client/parser/gen.go")])
p("P25", "A command that fails never damages the user's file",
  "Formatting, importing or otherwise writing to a file either completes with the whole new content or leaves the existing file exactly as it was, whatever the options, input and failure; output goes only to the requested destination. This includes exporting (also when the player is slow) and the REPL's :load, :save and :export, which never overwrite a file that could not be loaded.",
  ["configurations", "fault_sequences", "crash_points"], "all combinations of valid/invalid options, valid/invalid inputs, source and destination kinds for the file-writing commands",
  "It quantifies over option and failure combinations; the commands have no tests.",
  ["client/cmd/format.go", "client/cmd/import.go", "client/cmd/export.go", "client/system/files.go", "client/repl/client.go"],
  [("format command", "client/cmd/format.go"), ("import command", "client/cmd/import.go")])
p("P26", "S-expressions set exactly the attribute they name, or fail",
  "Every built-in S-expression with valid arguments has exactly its documented effect, under each of its names, locally or (with !) globally; notes and rests built with S-expressions equal their written counterparts. Any other argument count, type or range, unknown name or malformed expression is reported as an error and changes nothing.",
  ["inputs", "programs"], "every built-in name x every argument list up to length 2 over a domain of representative and boundary values",
  "The function table x argument space is far larger than the tests' samples.",
  [M+"lisp.go", M+"attributes.go"],
  [("defattribute / LispFunction.Operate / argumentsMatchSignature", M+"lisp.go")])
p("P27", "An update replaces an executable wholly or not at all",
  "After `alda update` - whatever the release server answers, whatever is installed, whether the user agrees, refuses or cannot be asked, and wherever it fails or is killed - each executable is wholly the old or wholly the new one and works, an executable is never missing unless it was before, no other file is created, changed or deleted (downloads in progress are removed unless alda itself is killed), and exit status and messages say which of these happened. Other commands only clean up what an earlier update renamed, and install the player that fits when asked to and only if the user agrees.",
  ["configurations", "fault_sequences", "crash_points"], "all answers of the release server x installed states x consent; every system call failing, write cut, or kill",
  "It quantifies over every server answer and fault point of a multi-step file replacement; there are no tests of it.",
  ["client/cmd/update.go", "client/cmd/root.go", "client/cmd/doctor.go", "client/system/files.go"],
  [("update command, installPlayerIfMissing", "client/cmd/update.go"), ("RenamedFilenamePrefix, DeleteOldRenamedFiles", "client/system/files.go")])
p("P28", "Nothing is reported about a user who opted out",
  "A request is sent only if the user's choice is `enabled`, at most once per command, and carries only the operating system, architecture, version and name of the command, never arguments, file names or music. Before the first report the user is informed; --enable, --disable and --status do what they say; a choice is kept across failures, kills and simultaneous commands; and no behaviour of the server (slow, failing, absent) changes what a command does.",
  ["histories", "configurations", "fault_sequences", "crash_points"], "all histories of commands x choices x environments x server behaviours; every fault and kill position; another command at every system call",
  "It ranges over histories of runs, server behaviour and interruptions; there are no tests of it.",
  ["client/cmd/telemetry.go", "client/cmd/root.go"],
  [("telemetry status and sending", "client/cmd/telemetry.go")])
p("P29", "The exported score data is consistent and complete",
  "The JSON of a score describes exactly its notes, parts, aliases, markers, variables and global attributes; every part identifier used by a note, alias or current-part list refers to a listed part, and the JSON of a syntax tree contains every element's content.",
  ["programs"], "all programs of a closed alphabet (parts, voices, aliases, variables, globals, markers) up to a bound",
  "Referential consistency must hold for every history of voices and aliases; tests do not check the JSON.",
  [M+"score.go", M+"part.go", M+"voice.go", M+"variable.go", "client/parser/ast.go"],
  [("Score.JSON / Part.ID", M+"score.go"), ("ASTNode.JSON", "client/parser/ast.go")])
p("P30", "Player playback and MIDI files follow the received messages",
  "The player process performs every message it receives at its scheduled time, writes MIDI files containing exactly the received score, and stops, resumes and shuts down on command.",
  ["schedules", "histories"], "all message sequences and timings",
  "Needs the JVM player under a controlled scheduler; its tests cover the message parser only.",
  ["player/src/main/kotlin"],
  [("player", "player/src/main/kotlin")])
p("P31", "A score means the same by whatever way its text reaches Alda",
  "The same text gives the same syntax tree, events, score data, transmission and error report whether it is a file, an argument, the standard input (in however many pieces it arrives), typed or loaded at the REPL's prompt, sent as a message to the server, or passed to the WebAssembly module. A text in error makes the command fail with that error's message and position, and then nothing is printed, transmitted or kept; `play` transmits exactly the asked-for excerpt to be played once, `export` loads without playing; and no call of the module, valid or not, stops later calls from being answered.",
  ["inputs", "configurations", "histories"], "a corpus of texts x ways to give them x commands and outputs; every cut of the standard input; every excerpt; every history of calls of the module up to a depth",
  "The commands, the REPL and the WebAssembly module each have their own path from text to result; none of those paths has a test.",
  ["client/cmd/parse.go", "client/cmd/play.go", "client/cmd/export.go", "client/cmd/repl.go", "client/system/stdin.go", "client/wasm/main.go", "client/repl/client.go", "client/repl/server.go"],
  [("parse, play and export commands", "client/cmd/parse.go"), ("toOSCBytes", "client/wasm/main.go"), ("ReadStdin", "client/system/stdin.go")])
p("P32", "The REPL's processes do what is typed and clean up after themselves",
  "For every line typed, the REPL client sends exactly the request that the command or input means (or none), shows exactly what the answer contains, reports every failure and goes on; an answer that is negative, foreign, malformed, cut off or absent ends at most that request. A REPL server can be found (port file, `alda ps`) while it runs; when it ends - by command, end of input or a signal - its process exits and the files it created, and only those, are gone.",
  ["inputs", "histories", "fault_sequences"], "every line x every kind of answer, every cut of an answer, histories of lines and of answers; every way of starting x every way of ending, alone and next to another server",
  "It ranges over every command, every (mis)behaviour of the other side and histories of both; the client has no tests.",
  ["client/repl/client.go", "client/cmd/repl.go", "client/repl/server.go"],
  [("replCommands, sendRequest, RunClient", "client/repl/client.go"), ("RunServer, Close", "client/repl/server.go"), ("repl command", "client/cmd/repl.go")])
p("P33", "alda doctor tells the truth about the installation",
  "`alda doctor` reports every check as OK and succeeds exactly if everything it checks works (however slowly, within its time limits); otherwise it reports the checks up to the first one that is affected, that one as failed with a reason, and the command fails. It talks to and shuts down only players that it started itself, deletes only the state files of players that are gone, and leaves no files behind.",
  ["inputs", "fault_sequences"], "every single trouble of the installation (player missing, old, silent, slow, dying, misreporting, exporting something else, every cut or pause of the exported file, logs, state files), pairs of troubles, every state of other players",
  "It ranges over what can be wrong with the other programs and files of an installation, and when; the command has no tests.",
  ["client/cmd/doctor.go", "client/system/process_management.go"],
  [("doctorCmd, step", "client/cmd/doctor.go"), ("PingPlayer, ReadPlayerStates, FindOpenPort, AldaPlayerPath", "client/system/process_management.go")])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
