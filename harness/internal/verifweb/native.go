package verifweb

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Request is what the endpoint is sent.
type Request struct {
	Method, Path string
	Body         string
	Fails        bool // the body ends before its announced length
	Chunk        int  // the body is delivered in pieces of this size, if positive
	Unsized      bool // the length of the body is not announced
	Query        string
	Header       [2]string // name and value of a header, if any
}

// Response is what it answers.
type Response struct {
	Status int
	Origin string // Access-Control-Allow-Origin
	Body   string
}

// Child says that the process was started as the server.
func Child() bool { return os.Getenv("VERIF_CHILD") != "" }

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifweb:", err)
		os.Exit(4)
	}
}

// Native starts the endpoint and sends it the request.
func Native(r Request) Response { return Session(false, r)[0] }

// Session starts the endpoint and sends it requests, one after another. If within, the second and later ones are sent
// and answered after half of the body of the first.
func Session(within bool, rs ...Request) []Response {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fatal(err)
	addr := l.Addr().String()
	l.Close()
	exe, err := os.Executable()
	fatal(err)
	cmd := exec.Command(exe)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") && !strings.HasPrefix(e, "PORT=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	_, port, _ := net.SplitHostPort(addr)
	cmd.Env = append(cmd.Env, "VERIF_CHILD=1", "PORT="+port)
	s := &server{addr: addr, cmd: cmd}
	cmd.Stderr = &s.log
	fatal(cmd.Start())
	defer func() {
		cmd.Process.Kill()
		cmd.Wait()
	}()
	res := make([]Response, len(rs))
	if !within {
		for i, r := range rs {
			c := s.open(r)
			s.send(c, r, []byte(r.Body))
			res[i] = s.answer(c, r)
		}
		return res
	}
	c := s.open(rs[0])
	half := len(rs[0].Body) / 2
	s.send(c, rs[0], []byte(rs[0].Body)[:half])
	time.Sleep(30 * time.Millisecond)
	for i, r := range rs[1:] {
		c := s.open(r)
		s.send(c, r, []byte(r.Body))
		res[i+1] = s.answer(c, r)
	}
	s.send(c, rs[0], []byte(rs[0].Body)[half:])
	res[0] = s.answer(c, rs[0])
	return res
}

type server struct {
	addr string
	cmd  *exec.Cmd
	log  bytes.Buffer
	dead bool
}

// open connects and sends the head of a request.
func (s *server) open(r Request) net.Conn {
	if s.dead {
		fatal(errors.New("the endpoint has ended"))
	}
	var c net.Conn
	var err error
	for i := 0; ; i++ {
		c, err = net.DialTimeout("tcp", s.addr, time.Second)
		if err == nil {
			break
		}
		if i > 500 {
			s.cmd.Process.Kill()
			fatal(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.SetDeadline(time.Now().Add(15 * time.Second))
	n := len(r.Body)
	if r.Fails {
		n += 100
	}
	uri := r.Path
	if r.Query != "" {
		uri += "?" + r.Query
	}
	length := fmt.Sprintf("Content-Length: %d", n)
	if r.Unsized {
		length = "Transfer-Encoding: chunked"
	}
	if r.Header[0] != "" {
		length += "\r\n" + r.Header[0] + ": " + r.Header[1]
	}
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: localhost\r\n%s\r\nConnection: close\r\n\r\n", r.Method, uri, length)
	return c
}

// send sends some of the body of a request.
func (s *server) send(c net.Conn, r Request, b []byte) {
	for len(b) > 0 {
		k := len(b)
		if r.Chunk > 0 && k > r.Chunk {
			k = r.Chunk
		}
		if r.Unsized {
			fmt.Fprintf(c, "%x\r\n%s\r\n", k, b[:k])
		} else {
			c.Write(b[:k])
		}
		b = b[k:]
		if len(b) > 0 {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

// answer ends a request and reads the response.
func (s *server) answer(c net.Conn, r Request) Response {
	defer c.Close()
	if r.Fails {
		c.(*net.TCPConn).CloseWrite()
	} else if r.Unsized {
		fmt.Fprint(c, "0\r\n\r\n")
	}
	req, _ := http.NewRequest(r.Method, "/", nil)
	resp, err := http.ReadResponse(bufio.NewReader(c), req)
	if err != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.dead = true
		if strings.Contains(s.log.String(), "panic serving") {
			fmt.Fprintln(os.Stderr, "the endpoint panics:", s.log.String())
			os.Exit(1)
		}
		// no response to read
		return Response{}
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return Response{Status: resp.StatusCode, Body: "?" + err.Error()}
	}
	return Response{Status: resp.StatusCode, Origin: resp.Header.Get("Access-Control-Allow-Origin"), Body: string(body)}
}
