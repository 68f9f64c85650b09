package main

// A fault injector: runs a command under ptrace, numbers the system calls that
// concern files of a directory, and makes one of them fail, writes only part
// of the data, or kills the process there. (linux/amd64)

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

type sysEvent struct {
	Call  string
	Path  string
	Path2 string `json:",omitempty"`
	Count int64  `json:",omitempty"`
	Write bool   `json:",omitempty"` // changes the file system
	Ret   int64
}

// fault is what happens at the K-th event (from 0).
type fault struct {
	K     int
	Kill  bool
	Errno int
	Cut   int      // -1, or how much of a write is carried out
	Run   []string `json:",omitempty"` // another command that runs at that moment
}

const (
	opEntry = 1
	opExit  = 2
)

type sysInfo struct {
	op   byte
	nr   uint64
	args [6]uint64
	ret  int64
}

func getSysInfo(tid int) (sysInfo, error) {
	var b [128]byte
	_, _, e := syscall.Syscall6(syscall.SYS_PTRACE, 0x420e, uintptr(tid), uintptr(len(b)), uintptr(unsafe.Pointer(&b[0])), 0, 0)
	if e != 0 {
		return sysInfo{}, e
	}
	si := sysInfo{op: b[0]}
	switch si.op {
	case opEntry:
		si.nr = binary.LittleEndian.Uint64(b[24:])
		for i := range si.args {
			si.args[i] = binary.LittleEndian.Uint64(b[32+8*i:])
		}
	case opExit:
		si.ret = int64(binary.LittleEndian.Uint64(b[24:]))
	}
	return si, nil
}

func peekString(tid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 8)
	for len(out) < 4096 {
		if n, err := syscall.PtracePeekData(tid, uintptr(addr), buf); err != nil || n == 0 {
			break
		}
		for _, c := range buf {
			if c == 0 {
				return string(out)
			}
			out = append(out, c)
		}
		addr += 8
	}
	return string(out)
}

// describe says which files a system call concerns.
func describe(pid, tid int, si sysInfo) *sysEvent {
	fd := func(n uint64) string {
		p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(n)))
		return p
	}
	at := func(dfd, addr uint64) string {
		s := peekString(tid, addr)
		if filepath.IsAbs(s) {
			return s
		}
		d, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
		if int32(dfd) != -100 {
			d = fd(dfd)
		}
		return filepath.Join(d, s)
	}
	const cwd = 0xffffffffffffff9c
	a := si.args
	e := &sysEvent{}
	set := func(call, p, p2 string, w bool) { e.Call, e.Path, e.Path2, e.Write = call, p, p2, w }
	const wr = syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC
	switch si.nr {
	case 2:
		set("open", at(cwd, a[0]), "", a[1]&wr != 0)
	case 257:
		set("open", at(a[0], a[1]), "", a[2]&wr != 0)
	case 85:
		set("open", at(cwd, a[0]), "", true)
	case 0, 17:
		set("read", fd(a[0]), "", false)
	case 1, 18:
		set("write", fd(a[0]), "", true)
		e.Count = int64(a[2])
	case 20:
		set("writev", fd(a[0]), "", true)
	case 40, 326:
		set("copy", fd(a[0]), "", true)
		if si.nr == 326 {
			e.Path = fd(a[2])
		}
	case 74, 75:
		set("sync", fd(a[0]), "", false)
	case 77:
		set("truncate", fd(a[0]), "", true)
	case 76:
		set("truncate", at(cwd, a[0]), "", true)
	case 91:
		set("chmod", fd(a[0]), "", true)
	case 90:
		set("chmod", at(cwd, a[0]), "", true)
	case 268:
		set("chmod", at(a[0], a[1]), "", true)
	case 93:
		set("chown", fd(a[0]), "", true)
	case 82:
		set("rename", at(cwd, a[0]), at(cwd, a[1]), true)
	case 264, 316:
		set("rename", at(a[0], a[1]), at(a[2], a[3]), true)
	case 86:
		set("link", at(cwd, a[0]), at(cwd, a[1]), true)
	case 265:
		set("link", at(a[0], a[1]), at(a[2], a[3]), true)
	case 88:
		set("symlink", peekString(tid, a[0]), at(cwd, a[1]), true)
	case 266:
		set("symlink", peekString(tid, a[0]), at(a[1], a[2]), true)
	case 87:
		set("unlink", at(cwd, a[0]), "", true)
	case 263:
		set("unlink", at(a[0], a[1]), "", true)
	case 83:
		set("mkdir", at(cwd, a[0]), "", true)
	case 258:
		set("mkdir", at(a[0], a[1]), "", true)
	case 3:
		set("close", fd(a[0]), "", false)
	default:
		return nil
	}
	return e
}

// tracerMain: LOG DIR FAULT COMMAND...
func tracerMain(args []string) {
	runtime.LockOSThread()
	logPath, dir := args[0], args[1]
	var ft *fault
	if args[2] != "" {
		ft = &fault{}
		if err := json.Unmarshal([]byte(args[2]), ft); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(99)
		}
	}
	die := func(what string, err error) {
		fmt.Fprintf(os.Stderr, "tracer: %s: %v\n", what, err)
		os.Exit(99)
	}
	cmd := exec.Command(args[3], args[4:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true}
	if err := cmd.Start(); err != nil {
		die("start", err)
	}
	pid := cmd.Process.Pid
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, 0x40000000, nil); err != nil || !ws.Stopped() {
		die("first stop", err)
	}
	// new threads are traced, too; the process ends with the tracer
	if err := syscall.PtraceSetOptions(pid, 0x1|syscall.PTRACE_O_TRACECLONE|0x100000); err != nil {
		die("options", err)
	}
	syscall.PtraceSyscall(pid, 0)
	var events []*sysEvent
	open := map[int]*sysEvent{} // calls being carried out
	fail := map[int]int{}       // calls that are skipped, and with what error
	failWrite := 0              // the error of the next write
	finish := func(code int) {
		b, _ := json.Marshal(events)
		if err := os.WriteFile(logPath, b, 0644); err != nil {
			die("log", err)
		}
		os.Exit(code)
	}
	kill := func() { syscall.Kill(pid, syscall.SIGKILL) }
	cutKill := map[int]bool{}
	for {
		tid, err := syscall.Wait4(-1, &ws, 0x40000000, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			die("wait", err)
		}
		if ws.Exited() || ws.Signaled() {
			if tid != pid {
				delete(open, tid)
				continue
			}
			if ws.Exited() {
				finish(ws.ExitStatus())
			}
			finish(128 + int(ws.Signal()))
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			sig = 0
			si, err := getSysInfo(tid)
			if err != nil {
				break
			}
			if si.op == opEntry {
				e := describe(pid, tid, si)
				if e == nil || !strings.HasPrefix(e.Path+"/", dir+"/") && !strings.HasPrefix(e.Path2+"/", dir+"/") {
					break
				}
				n := len(events)
				events = append(events, e)
				open[tid] = e
				skip := func(errno int) {
					var regs syscall.PtraceRegs
					syscall.PtraceGetRegs(tid, &regs)
					regs.Orig_rax = ^uint64(0)
					syscall.PtraceSetRegs(tid, &regs)
					fail[tid] = errno
				}
				isWrite := e.Call == "write" || e.Call == "writev" || e.Call == "copy"
				switch {
				case failWrite != 0 && isWrite:
					skip(failWrite)
				case ft == nil || ft.K != n:
				case ft.Run != nil:
					// only wait4 of the traced threads is used here, so that
					// the other command must be waited for by its id
					other := exec.Command(ft.Run[0], ft.Run[1:]...)
					if err := other.Run(); err != nil && other.ProcessState == nil {
						die("other command", err)
					}
				case ft.Cut >= 0 && (e.Call == "write" || e.Call == "copy"):
					var regs syscall.PtraceRegs
					syscall.PtraceGetRegs(tid, &regs)
					// what comes over the network may come in other pieces
					// than in the recorded run
					cut := uint64(ft.Cut)
					if e.Call == "write" && uint64(e.Count) < cut {
						cut = uint64(e.Count)
					}
					switch si.nr {
					case 40:
						regs.R10 = cut
					case 326:
						regs.R8 = cut
					default:
						regs.Rdx = cut
					}
					syscall.PtraceSetRegs(tid, &regs)
					cutKill[tid] = ft.Kill
					failWrite = ft.Errno
				case ft.Kill:
					skip(int(syscall.EIO))
					kill()
				case ft.Errno != 0:
					skip(ft.Errno)
					if isWrite && ft.Errno == int(syscall.ENOSPC) {
						failWrite = ft.Errno
					}
				}
			} else if si.op == opExit {
				if errno, ok := fail[tid]; ok {
					var regs syscall.PtraceRegs
					syscall.PtraceGetRegs(tid, &regs)
					regs.Rax = uint64(-int64(errno))
					syscall.PtraceSetRegs(tid, &regs)
					si.ret = -int64(errno)
					delete(fail, tid)
				}
				if e := open[tid]; e != nil {
					e.Ret = si.ret
					delete(open, tid)
				}
				if cutKill[tid] {
					kill()
				}
			}
		case sig == syscall.SIGTRAP:
			sig = 0
		case sig == syscall.SIGSTOP:
			sig = 0
		}
		syscall.PtraceSyscall(tid, int(sig))
	}
}
