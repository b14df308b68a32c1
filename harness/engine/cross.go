package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
)

// Serve answers cases read as JSON lines on standard input, one JSON string per
// line. A panic is an answer too.
func Serve[T any](answer func(T) string) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c T
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		b, _ := json.Marshal(safely(c, answer))
		out.Write(b)
		out.WriteByte('\n')
		if err := out.Flush(); err != nil {
			return
		}
	}
}

func safely[T any](c T, answer func(T) string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("panic: %v", p)
		}
	}()
	return answer(c)
}

var peer struct {
	in  io.WriteCloser
	out *bufio.Reader
}

func startPeer() {
	exe, _ := os.Executable()
	name := exe[strings.LastIndex(exe, "/")+1:]
	p := os.Getenv("PBT_PEER_" + strings.SplitN(name, "-", 2)[0])
	if p == "" {
		panic("harness: no peer build")
	}
	cmd := exec.Command(p, "serve")
	cmd.Stderr = os.Stderr
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	peer.in, peer.out = in, bufio.NewReaderSize(out, 1<<20)
}

// Twice answers a case here and in the peer build ($PBT_PEER_<name of this
// binary>, see check.sh).
func Twice[T any](c T, answer func(T) string) (here, there string) {
	return safely(c, answer), There(c)
}

// There answers a case in the peer build only.
func There[T any](c T) (there string) {
	b, err := json.Marshal(c)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for try := 0; try < 2; try++ {
		if peer.in == nil {
			startPeer()
		}
		if _, err := peer.in.Write(append(b, '\n')); err != nil {
			peer.in = nil
			continue
		}
		line, err := peer.out.ReadBytes('\n')
		if err != nil {
			peer.in = nil
			continue
		}
		if err := json.Unmarshal(line, &there); err != nil {
			panic("harness: peer: " + err.Error())
		}
		return there
	}
	return "nothing: the process dies"
}
