package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/fwhezfwhez/tcpx"

	"vh/vnet"
	"vh/vrt"
)

// Exit scenarios, generated by spec/ExitEnv.tla: a child process calls BeforeExit with functions that report when they
// begin and end; the parent (or the child itself) sends signals. Real processes, real signals, real time.

type XOp struct {
	Op string `json:"op"` // sig, self, wait, serve, stop, start, finish
	S  string `json:"s"`
	N  int    `json:"n"` // milliseconds
}

type XScn struct {
	ID    int    `json:"id"`
	Fam   string `json:"fam"`
	Seed  int    `json:"seed"`
	Y     int    `json:"y"`
	Hooks []int  `json:"hooks"` // how long each function runs, in milliseconds
	Early string `json:"early"` // a signal the child sends itself right after BeforeExit has returned
	Ops   []XOp  `json:"ops"`
}

type XTrace struct {
	Scn *XScn `json:"scn"`
	Ev  []Ev  `json:"ev"`
}

var signals = map[string]syscall.Signal{"INT": syscall.SIGINT, "TERM": syscall.SIGTERM, "QUIT": syscall.SIGQUIT}

func TestExitChild(t *testing.T) {
	if os.Getenv("DRV_CHILD") == "" {
		t.Skip()
	}
	var s XScn
	if e := json.Unmarshal([]byte(os.Getenv("DRV_CHILD")), &s); e != nil {
		os.Exit(99)
	}
	w := os.NewFile(3, "report")
	say := func(f string, a ...interface{}) { w.Write([]byte(fmt.Sprintf(f, a...) + "\n")) }
	if s.Y > 0 {
		rng := mrand.New(mrand.NewSource(int64(s.Seed)))
		var mu sync.Mutex
		vrt.Hook = func(int) {
			mu.Lock()
			r := rng.Intn(1 << 16)
			mu.Unlock()
			if r%s.Y == 0 {
				time.Sleep(time.Duration(r%1500) * time.Microsecond)
			}
		}
	}
	vnet.W = vnet.NewWorld()
	srv := tcpx.NewTcpX(nil)
	var hooks []func()
	for i, ms := range s.Hooks {
		hooks = append(hooks, func() {
			say("hb %d", i+1)
			time.Sleep(time.Duration(ms) * time.Millisecond)
			say("he %d", i+1)
		})
	}
	srv.BeforeExit(hooks...)
	if s.Early != "" {
		say("sig %s", s.Early)
		syscall.Kill(os.Getpid(), signals[s.Early])
	}
	say("ready")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		a := strings.Fields(in.Text())
		switch a[0] {
		case "self":
			say("sig %s", a[1])
			syscall.Kill(os.Getpid(), signals[a[1]])
		case "serve":
			go srv.ListenAndServe("tcp", "127.0.0.1:9001")
		case "stop":
			srv.Stop(true)
		case "start":
			go srv.Start()
		case "finish":
			os.Exit(3)
		}
		say("ack")
	}
	select {}
}

var exitSlow int

func runExit(s *XScn) XTrace {
	tr := XTrace{s, []Ev{}}
	var mu sync.Mutex
	log := func(e Ev) { mu.Lock(); e["t"] = 0; tr.Ev = append(tr.Ev, e); mu.Unlock() }
	pr, pw, e := os.Pipe()
	if e != nil {
		panic("harness: " + e.Error())
	}
	b, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0], "-test.run", "TestExitChild$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "DRV_CHILD="+string(b), "GOMAXPROCS=2", "DRV_IN=")
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stdout, cmd.Stderr = nil, nil
	stdin, e := cmd.StdinPipe()
	if e != nil {
		panic("harness: " + e.Error())
	}
	if e := cmd.Start(); e != nil {
		panic("harness: " + e.Error())
	}
	pw.Close()
	ready, acks, eof := make(chan bool, 1), make(chan bool, 100), make(chan bool)
	go func() {
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			a := strings.Fields(sc.Text())
			switch a[0] {
			case "ready":
				ready <- true
			case "ack":
				acks <- true
			case "sig":
				log(Ev{"e": "sig", "s": a[1]})
			case "hb", "he":
				n, _ := strconv.Atoi(a[1])
				log(Ev{"e": a[0], "i": n})
			}
		}
		close(eof)
	}()
	limit := 15 * time.Second
	if exitSlow > 2 {
		limit = time.Second
	}
	dead := false
	await := func(c chan bool, d time.Duration) bool {
		select {
		case <-c:
			return true
		case <-eof:
			dead = true
		case <-time.After(d):
		}
		return false
	}
	sig := s.Early != ""
	fin := false
	if !await(ready, 20*time.Second) && !dead {
		log(Ev{"e": "stuck"})
	}
	for _, o := range s.Ops {
		if dead {
			break
		}
		switch o.Op {
		case "sig":
			log(Ev{"e": "sig", "s": o.S})
			cmd.Process.Signal(signals[o.S])
			sig = true
		case "wait":
			await(make(chan bool), time.Duration(o.N)*time.Millisecond)
		default:
			if o.Op == "finish" {
				log(Ev{"e": "finish"})
				fin = true
			}
			if o.Op == "self" {
				sig = true
			}
			io.WriteString(stdin, o.Op+" "+o.S+"\n")
			if !sig {
				await(acks, 20*time.Second)
			}
		}
	}
	if !dead && !sig && !fin {
		await(make(chan bool), 40*time.Millisecond)
	}
	if !dead && (sig || fin) && !await(make(chan bool), limit) && !dead {
		exitSlow++
	}
	killed := !dead
	cmd.Process.Kill()
	<-eof
	cmd.Wait()
	pr.Close()
	code := cmd.ProcessState.ExitCode()
	log(Ev{"e": "exit", "alive": killed, "code": code})
	return tr
}

func TestExit(t *testing.T) {
	drive(t, func(t *testing.T, line []byte, ready, done func(interface{})) {
		var s XScn
		if e := json.Unmarshal(line, &s); e != nil {
			t.Fatalf("bad scenario: %v: %s", e, line)
		}
		ready(&s)
		done(runExit(&s))
	})
}
