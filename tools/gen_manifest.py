#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "bounded exhaustive enumeration of programs, each run on the real parser and score builder and compared step by step with an explicit-state reference model"
# id: (technique, level, note)
CLAIMED = {
 "P02": (SEQ, "model_checking", "every sequence over small alphabets of notes, rests, chords, durations, tempo/quantization changes and part switches up to the depth in the evidence"),
 "P03": (SEQ, "model_checking", "every forest of crams, repeats, sequences and events up to a node bound, compared with an independent recursive fit"),
 "P04": (SEQ, "model_checking", "every forest of repeats, endings, sequences and events up to a node bound; the oracle expands them textually"),
 "P05": (SEQ, "model_checking", "every sequence of voice markers, group ends, declarations and events up to a depth bound, one or several active parts"),
 "P06": (SEQ, "model_checking", "every sequence of marker definitions, jumps, notes and part switches up to a depth bound"),
 "P07": (SEQ, "model_checking", "every sequence of definitions, redefinitions and references of two variables up to a depth bound"),
 "P08": (SEQ, "model_checking", "every history of part declarations over 26 declaration forms up to a length bound; every stock instrument name and pair of names"),
 "P10": ("exhaustive enumeration of the pitch space (letter x accidentals x octave x key signature x transposition) and of octave/key/transposition histories on the real code, against music-theory arithmetic", "model_checking", "complete product of the dimensions plus every history up to a depth bound"),
 "P12": ("bounded exhaustive enumeration of layouts: every choice of separators at up to two (three) boundaries of scores covering the grammar, run on the real parser and compared with the plain layout", "exploration", "every separator kind at every pair of boundaries; differential oracle, hence 'exploration'"),
 "P18": ("bounded exhaustive enumeration of programs x cut points, each run piecewise on the real parser and score and compared with an explicit-state reference model and with the uncut run", "model_checking", "every way of cutting every program up to a length bound into successive inputs"),
 "P25": ("exhaustive enumeration of options x inputs x destinations for every command that writes files, and of fault positions: under a ptrace fault injector every system call on the user's files fails with each error, every write is cut at each length, and the process is killed at every call; exhaustive histories of :load/:save/:export in the real REPL client; the whole directory is compared with its state before", "fault_enumeration", "every combination of the option domains; every file system call x error / kill, writes cut at (a grid of) lengths; all REPL histories of 2 (3) commands"),
 "P26": ("exhaustive enumeration of every built-in S-expression x argument lists over a domain of representative and boundary values, on the real evaluator, against a table of documented signatures and effects", "model_checking", "every function name (documented list) x every argument list up to length 2 (3 thorough)"),
 "P27": ("exhaustive enumeration of release server answers x installed states x consent x commands, each a run of the real alda binary in a directory of its own against a stand-in server, and of fault positions: every system call on the directory fails with each error, every write is cut, the process is killed at every call; the whole directory is compared before, after, and after one more run", "fault_enumeration", "every combination of the domains; every file system call x error / kill, writes cut at (a grid of) lengths"),
 "P28": ("explicit-state exploration: every history of runs of the real alda binary over choices, environments, commands and server behaviours compared with a state machine of the user's choice; enumeration of fault, kill and preemption positions (another command runs at each system call)", "model_checking", "histories of 2-3 (4) commands; every file system call x error / kill / other command"),
 "P19": ("exhaustive enumeration of fault positions: a failing element at every position of every input, sent to the real server process in every place of short histories; the session is compared after every input with one that never got the failing input", "fault_enumeration", "a failing element at every token position of 6 base inputs x 5 kinds of failure, as evaluation and as load; all short histories of failing and good inputs"),
 "P20": ("exhaustive enumeration of request histories, interleavings of two clients, cuts of the byte stream and malformed requests, run against the real server process and compared with an explicit-state model of the protocol", "model_checking", "all pairs of requests, all triples of a core alphabet, all cuts of a packet stream, all interleavings of two clients' 3 requests x waiting mode"),
 "P21": ("exhaustive enumeration of histories of inputs, commands and player failures, run against the real server process with stand-in players whose received messages are compared with an explicit-state reference model; player look-ups of the server are suspended at a controlled point while requests are handled", "model_checking", "all histories of 2-3 events over the alphabet, every command in every state of player loss, every 1-2 requests during a suspended look-up"),
 "P09": (SEQ, "model_checking", "every sequence of local and global changes, notes and part switches up to a depth bound; every pair of attribute changes"),
 "P13": ("bounded exhaustive enumeration of layouts and constructs, each parsed and evaluated by the real client; every node and error position compared with the position known by construction", "model_checking", "every construct after every short layout prefix; every erroneous construct in every nesting context"),
 "P14": ("bounded exhaustive enumeration of scores x wrap lengths x indents, each formatted by the real formatter, reparsed and compared, then formatted again", "exploration", "every small composition of elements, constructs and barlines at every wrap length in range; differential oracle, hence 'exploration'"),
 "P15": (SEQ + "; the transmitted messages are interpreted by a model of the player's channel state", "model_checking", "every program over three alphabets up to a depth bound, every level, every request over a real connection"),
 "P16": (SEQ + "; every span of every score is transmitted and its messages interpreted by a model of the player's channel state", "model_checking", "every program up to a depth bound x every pair of points of a domain that includes invalid and extreme ones"),
 "P17": (SEQ, "model_checking", "every program of local/global tempo changes, voices, jumps and constructs up to a depth bound"),
 "P22": ("exhaustive enumeration of directories of player state files (state x age x content x validity x listener, every truncation of a state file) x commands, run on the real alda binary with stand-in players; who is sent what, what is started, what is reported and what is left is compared with an explicit model", "fault_enumeration", "every pair of 25 kinds of state file, every triple of a core, every cut of a state file, every number of missing players x commands"),
 "P23": ("bounded exhaustive enumeration of MusicXML documents (token sequences over closed alphabets of notes, chords, ties, slurs, rests, cursor moves, voices, attributes, repeats and endings; every element deleted, moved, renamed, garbled, alone and in pairs; every byte of the text changed), each imported by the client and its text evaluated and compared with the notes an independent interpreter derives from the document", "exploration", "every sequence of up to 5 (6) tokens of each alphabet, every GM program / percussion key, every part list of up to 3 (4) parts, every single and double mutation of a document; an independent oracle for the music, hence 'exploration'"),
 "P24": ("bounded exhaustive enumeration of lists of score elements (from text and built directly), each turned into source by the client, read back and compared by the music it evaluates to", "exploration", "every small composition of elements, every key signature, every element x length; differential oracle, hence 'exploration'"),
 "P11": ("bounded exhaustive enumeration of programs over parts, notes, explicit channels, jumps and voices around the limit of 15 channels, each run on the real client; channel invariants checked after every note, notes compared with an explicit-state reference model", "model_checking", "every sequence over eight alphabets up to a depth bound, from few parts to more parts than channels"),
 "P29": ("bounded exhaustive enumeration of programs whose exported JSON is read back by an independent decoder and compared with an explicit-state reference model; exhaustive enumeration of texts whose exported tree is compared node by node", "model_checking", "every program over six alphabets up to a depth bound; every pair (triple) of syntax items"),
 "P31": ("exhaustive enumeration of texts x ways to give them x commands and outputs, of cuts of the standard input, of excerpts and of call histories of the WebAssembly module (built from the tree and run in node), each compared with the text parsed, evaluated and transmitted in process", "model_checking", "complete products over a fixed corpus of texts; every cut of two texts; all histories of 3 (4) calls over 13"),
 "P32": ("exhaustive enumeration of typed lines x answers of a scripted server, cuts of answers, histories of lines and of answers, run on the real REPL client and compared with an explicit model of its commands; exhaustive enumeration of ways to start and end REPL servers", "fault_enumeration", "every line x every of 27 kinds of answer, every cut of 4 answers, all pairs (triples) of lines, all pairs of answers"),
 "P33": ("exhaustive enumeration of the troubles of an installation (stand-in player processes that misbehave as told, state files, executables), alone and in pairs, each run through the real command and its report compared with a table of which check every trouble affects", "fault_enumeration", "every one of ~100 troubles (incl. every cut and every pause of the exported MIDI file) with and without audio; pairs of troubles one of which is harmless; every kind of other player, and pairs"),
 "P01": ("bounded exhaustive enumeration of texts (character strings, lexeme sequences, S-expression words, extreme numbers in every numeric position, nesting shapes, every truncation/deletion/substitution of example scores), each parsed and evaluated by the real client under a panic, stack, memory and time monitor", "exploration", "every character string up to length 3 (4), every lexeme sequence up to length 4, every damage position of the example scores"),
}
NA = [
 ("P30", "The player is a Kotlin/JVM program whose build needs Gradle and libraries that are not in this sandbox, so its code cannot be executed or instrumented here; checking a hand-written model with no conformance replay would say nothing about the code."),
]
PENDING = {}
try:
    from pending import PENDING
except Exception:
    pass
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "checks": [
  {"property": k, "quick_cmd": "VERIF_TIER=quick bin/check " + k, "thorough_cmd": "VERIF_TIER=thorough bin/check " + k,
   "technique": t, "level": l, "level_note": n}
  for k, (t, l, n) in sorted(CLAIMED.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA],
 "notes": "All harness code is compiled into the module alda.io/client through a build overlay; /repo carries no hooks.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for i in ids:
    if i not in CLAIMED and i not in [p for p, _ in NA]:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
