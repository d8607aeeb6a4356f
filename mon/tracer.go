package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A small ptrace tracer for processes started by the monitors themselves.
// It turns the file-system calls of the traced program below a root
// directory into events, and can kill the program, fail a call or delay it.

// FSOp is one file-system call of the traced program.
type FSOp struct {
	N     int // number among the mutating operations below the root (from 1), 0 for others
	Name  string
	Path  string // absolute, "" if unknown
	Path2 string
	Flags int
	Ret   int64
	Time  int64
}

func (o FSOp) String() string {
	s := o.Name + " " + o.Path
	if o.Path2 != "" {
		s += " -> " + o.Path2
	}
	if o.Ret < 0 {
		s += " = " + syscall.Errno(-o.Ret).Error()
	}
	return s
}

// Action is what to do at the entry of a call.
type Action struct {
	Kill  bool
	Errno syscall.Errno
	Delay time.Duration // of everything
	// Hold delays the calling thread alone: until Until is closed, HoldFor
	// at the longest.
	Until   <-chan struct{}
	HoldFor time.Duration
}

// Tracer drives one traced process.
type Tracer struct {
	Root    string
	OnEnter func(op *FSOp) Action
	OnExit  func(op *FSOp) // after a mutating call
	Ops     []FSOp         // mutating calls below Root, in order of completion

	Stderr   string
	ExitCode int // -1 when killed by a signal
	Killed   bool
	Pid      int
	Started  chan struct{}

	dir  string
	mu   sync.Mutex
	want bool // kill requested from outside
}

type thread struct {
	inCall bool
	cur    *FSOp
	inject syscall.Errno
	seen   bool
}

const (
	sysOpen, sysClose, sysWrite, sysPwrite64, sysWritev     = 2, 3, 1, 18, 20
	sysSendfile, sysFlock, sysFsync, sysFdatasync           = 40, 73, 74, 75
	sysTruncate, sysFtruncate, sysRename, sysMkdir          = 76, 77, 82, 83
	sysRmdir, sysCreat, sysLink, sysUnlink, sysSymlink      = 84, 85, 86, 87, 88
	sysChmod, sysFchmod, sysSync, sysOpenat, sysMkdirat     = 90, 91, 162, 257, 258
	sysUnlinkat, sysRenameat, sysLinkat, sysSymlinkat       = 263, 264, 265, 266
	sysFchmodat, sysSplice, sysSyncfs, sysRenameat2         = 268, 275, 306, 316
	sysCopyFileRange, sysFchmodat2                          = 326, 452
	atFdcwd                                             int = -100
)

func (t *Tracer) readStr(tid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 64)
	for len(out) < 4200 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if n <= 0 {
			if err != nil {
				return string(out)
			}
			break
		}
		if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
			return string(append(out, buf[:i]...))
		}
		out = append(out, buf[:n]...)
	}
	return string(out)
}

func (t *Tracer) fdPath(tid int, fd int) string {
	s, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, fd))
	if err != nil {
		return ""
	}
	return strings.TrimSuffix(s, " (deleted)")
}

func (t *Tracer) at(tid int, dirfd int, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	var base string
	if dirfd == atFdcwd {
		base, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", tid))
	} else {
		base = t.fdPath(tid, dirfd)
	}
	return filepath.Join(base, p)
}

// decode makes an event of a call; mutating tells whether it changes files.
func (t *Tracer) decode(tid int, r *syscall.PtraceRegs) (op *FSOp, mutating bool) {
	a1, a2, a3, a4 := r.Rdi, r.Rsi, r.Rdx, r.R10
	fd := func(v uint64) int { return int(int32(v)) }
	switch int(r.Orig_rax) {
	case sysOpen:
		op = &FSOp{Name: "open", Path: t.at(tid, atFdcwd, t.readStr(tid, a1)), Flags: int(a2)}
	case sysOpenat:
		op = &FSOp{Name: "open", Path: t.at(tid, fd(a1), t.readStr(tid, a2)), Flags: int(a3)}
	case sysCreat:
		op = &FSOp{Name: "open", Path: t.at(tid, atFdcwd, t.readStr(tid, a1)), Flags: syscall.O_CREAT | syscall.O_TRUNC | syscall.O_WRONLY}
	case sysMkdir:
		return &FSOp{Name: "mkdir", Path: t.at(tid, atFdcwd, t.readStr(tid, a1))}, true
	case sysMkdirat:
		return &FSOp{Name: "mkdir", Path: t.at(tid, fd(a1), t.readStr(tid, a2))}, true
	case sysRmdir:
		return &FSOp{Name: "rmdir", Path: t.at(tid, atFdcwd, t.readStr(tid, a1))}, true
	case sysUnlink:
		return &FSOp{Name: "unlink", Path: t.at(tid, atFdcwd, t.readStr(tid, a1))}, true
	case sysUnlinkat:
		n := "unlink"
		if a3&0x200 != 0 {
			n = "rmdir"
		}
		return &FSOp{Name: n, Path: t.at(tid, fd(a1), t.readStr(tid, a2))}, true
	case sysRename:
		return &FSOp{Name: "rename", Path: t.at(tid, atFdcwd, t.readStr(tid, a1)), Path2: t.at(tid, atFdcwd, t.readStr(tid, a2))}, true
	case sysRenameat, sysRenameat2:
		return &FSOp{Name: "rename", Path: t.at(tid, fd(a1), t.readStr(tid, a2)), Path2: t.at(tid, fd(a3), t.readStr(tid, a4))}, true
	case sysLink:
		return &FSOp{Name: "link", Path: t.at(tid, atFdcwd, t.readStr(tid, a1)), Path2: t.at(tid, atFdcwd, t.readStr(tid, a2))}, true
	case sysLinkat:
		return &FSOp{Name: "link", Path: t.at(tid, fd(a1), t.readStr(tid, a2)), Path2: t.at(tid, fd(a3), t.readStr(tid, a4))}, true
	case sysSymlink:
		return &FSOp{Name: "symlink", Path: t.readStr(tid, a1), Path2: t.at(tid, atFdcwd, t.readStr(tid, a2))}, true
	case sysSymlinkat:
		return &FSOp{Name: "symlink", Path: t.readStr(tid, a1), Path2: t.at(tid, fd(a2), t.readStr(tid, a3))}, true
	case sysChmod:
		return &FSOp{Name: "chmod", Path: t.at(tid, atFdcwd, t.readStr(tid, a1)), Flags: int(a2)}, true
	case sysFchmodat, sysFchmodat2:
		return &FSOp{Name: "chmod", Path: t.at(tid, fd(a1), t.readStr(tid, a2)), Flags: int(a3)}, true
	case sysTruncate:
		return &FSOp{Name: "truncate", Path: t.at(tid, atFdcwd, t.readStr(tid, a1))}, true
	case sysFchmod:
		return &FSOp{Name: "chmod", Path: t.fdPath(tid, fd(a1)), Flags: int(a2)}, true
	case sysFtruncate:
		return &FSOp{Name: "truncate", Path: t.fdPath(tid, fd(a1))}, true
	case sysWrite, sysPwrite64, sysWritev:
		return &FSOp{Name: "write", Path: t.fdPath(tid, fd(a1))}, true
	case sysSendfile:
		return &FSOp{Name: "write", Path: t.fdPath(tid, fd(a1))}, true
	case sysCopyFileRange, sysSplice:
		return &FSOp{Name: "write", Path: t.fdPath(tid, fd(a3))}, true
	case sysFsync, sysFdatasync:
		return &FSOp{Name: "fsync", Path: t.fdPath(tid, fd(a1))}, true
	case sysSync:
		return &FSOp{Name: "sync", Path: t.Root}, true
	case sysSyncfs:
		return &FSOp{Name: "sync", Path: t.fdPath(tid, fd(a1))}, true
	case sysFlock:
		return &FSOp{Name: "flock", Path: t.fdPath(tid, fd(a1)), Flags: int(a2)}, false
	default:
		return nil, false
	}
	return op, op.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
}

func under(root, p string) bool {
	return p == root || strings.HasPrefix(p, root+"/")
}

// Kill ends the traced process at once.
func (t *Tracer) Kill() {
	<-t.Started
	t.mu.Lock()
	t.want = true
	t.mu.Unlock()
	syscall.Kill(t.Pid, syscall.SIGKILL)
}

// Run starts argv and traces it to its end.
func (t *Tracer) Run(c *Ctx, argv []string, env []string, dir string) error {
	if t.Started == nil {
		t.Started = make(chan struct{})
	}
	errc := make(chan error, 1)
	go func() {
		runtime.LockOSThread() // for good: the thread ends with the goroutine
		defer func() {
			if r := recover(); r != nil {
				if t.Pid != 0 {
					syscall.Kill(t.Pid, syscall.SIGKILL)
				}
				errc <- fmt.Errorf("tracer: %v", r)
			}
		}()
		errc <- t.run(c, argv, env, dir)
	}()
	return <-errc
}

func (t *Tracer) run(c *Ctx, argv []string, env []string, dir string) error {
	ef, err := os.CreateTemp(c.Work, "trace-stderr")
	if err != nil {
		return err
	}
	defer os.Remove(ef.Name())
	defer ef.Close()
	null, err := os.Open("/dev/null")
	if err != nil {
		return err
	}
	defer null.Close()
	proc, err := os.StartProcess(argv[0], argv, &os.ProcAttr{
		Dir: dir, Env: env, Files: []*os.File{null, ef, ef},
		Sys: &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL},
	})
	if err != nil {
		return err
	}
	t.Pid = proc.Pid
	trackProc(proc)
	defer untrackProc(proc)
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(t.Pid, &ws, syscall.WALL, nil); err != nil {
		return err
	}
	const opts = syscall.PTRACE_O_TRACESYSGOOD | syscall.PTRACE_O_TRACECLONE | 0x100000 // EXITKILL
	if err := syscall.PtraceSetOptions(t.Pid, opts); err != nil {
		return fmt.Errorf("PTRACE_SETOPTIONS: %w", err)
	}
	close(t.Started)
	threads := map[int]*thread{t.Pid: {seen: true}}
	if err := syscall.PtraceSyscall(t.Pid, 0); err != nil {
		return err
	}
	n := 0
	type heldThread struct {
		tid      int
		until    <-chan struct{}
		deadline time.Time
	}
	var held []heldThread
	for {
		flags := syscall.WALL | 0x20000000 /* __WNOTHREAD */
		if len(held) > 0 {
			flags |= syscall.WNOHANG
			var rest []heldThread
			for _, h := range held {
				over := time.Now().After(h.deadline)
				select {
				case <-h.until:
					over = true
				default:
				}
				if over {
					syscall.PtraceSyscall(h.tid, 0)
				} else {
					rest = append(rest, h)
				}
			}
			held = rest
		}
		tid, err := syscall.Wait4(-1, &ws, flags, nil)
		if err == nil && tid == 0 {
			time.Sleep(200 * time.Microsecond)
			continue
		}
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return fmt.Errorf("wait4: %w", err)
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, tid)
			if tid == t.Pid {
				if ws.Exited() {
					t.ExitCode = ws.ExitStatus()
				} else {
					t.ExitCode = -1
				}
				break
			}
			continue
		}
		th := threads[tid]
		if th == nil {
			th = &thread{}
			threads[tid] = th
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80: // system call
			th.inCall = !th.inCall
			if th.inCall {
				var regs syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &regs) == nil {
					if op, mut := t.decode(tid, &regs); op != nil {
						in := under(t.Root, op.Path) || op.Path2 != "" && under(t.Root, op.Path2)
						if in && !strings.HasPrefix(op.Path, "socket:") {
							if mut {
								n++
								op.N = n
							}
							th.cur = op
							var act Action
							if t.OnEnter != nil {
								act = t.OnEnter(op)
							}
							if act.Delay > 0 {
								time.Sleep(act.Delay)
							}
							if act.Kill {
								t.Killed = true
								syscall.Kill(t.Pid, syscall.SIGKILL)
								th.cur = nil
								continue
							}
							if act.Errno != 0 {
								regs.Orig_rax = ^uint64(0)
								if syscall.PtraceSetRegs(tid, &regs) == nil {
									th.inject = act.Errno
								}
							}
							if act.HoldFor > 0 {
								held = append(held, heldThread{tid, act.Until, time.Now().Add(act.HoldFor)})
								continue
							}
						}
					}
				}
			} else if th.cur != nil {
				var regs syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &regs) == nil {
					if th.inject != 0 {
						regs.Rax = uint64(-int64(th.inject))
						syscall.PtraceSetRegs(tid, &regs)
						th.inject = 0
					}
					th.cur.Ret = int64(regs.Rax)
					th.cur.Time = now()
					if th.cur.N > 0 {
						t.Ops = append(t.Ops, *th.cur)
						if t.OnExit != nil {
							t.OnExit(th.cur)
						}
					}
				}
				th.cur = nil
			}
			syscall.PtraceSyscall(tid, 0)
		case sig == syscall.SIGTRAP && ws.TrapCause() > 0: // clone event
			syscall.PtraceSyscall(tid, 0)
		case sig == syscall.SIGSTOP && !th.seen:
			th.seen = true
			syscall.PtraceSyscall(tid, 0)
		default:
			s := int(sig)
			if sig == syscall.SIGTRAP {
				s = 0
			}
			syscall.PtraceSyscall(tid, s)
		}
	}
	data, _ := os.ReadFile(ef.Name())
	t.Stderr = tail(string(data), 8000)
	return nil
}
