package verifmodels

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"time"
)

// A model of the part of the operating system that the command uses: the standard files,
// and named files in one directory.

// Node is a file.
type Node struct {
	Data string
	Mode os.FileMode
	// FailAt is where reading fails, if not negative; Limit is how many bytes can be
	// written, if not negative.
	FailAt, Limit int
	// Most is the largest number of bytes that one read delivers, if positive.
	Most    int
	Out     []byte
	Created bool
}

// NewNode is a regular file.
func NewNode(data string) *Node { return &Node{Data: data, FailAt: -1, Limit: -1} }

type handle struct {
	node   *Node
	name   string
	pos    int
	write  bool
	add    bool // every write goes to the end
	closed bool
}

// Files are the named files; a name with a slash in it names nothing.
var Files map[string]*Node

// CreateLimit is the write limit of created files.
var CreateLimit = -1

var handles map[*os.File]*handle

// ErrIO is what failing reads and writes report.
var ErrIO = errors.New("input/output error")

// ExitCode is the panic value that os.Exit raises in the model.
type ExitCode int

func init() {
	if len(os.Args) == 0 {
		// in the executor, where package os is not initialised
		os.Args = []string{"jargon"}
		os.ErrNotExist, os.ErrExist, os.ErrClosed, os.ErrInvalid, os.ErrPermission = fs.ErrNotExist, fs.ErrExist, fs.ErrClosed, fs.ErrInvalid, fs.ErrPermission
		os.Stdin, os.Stdout, os.Stderr = new(os.File), new(os.File), new(os.File)
		handles = map[*os.File]*handle{}
		Standard(NewNode(""), NewNode(""), NewNode(""))
	}
}

// Standard sets the standard files.
func Standard(in, out, err *Node) {
	handles[os.Stdin] = &handle{node: in, name: "/dev/stdin"}
	handles[os.Stdout] = &handle{node: out, name: "/dev/stdout", write: true}
	handles[os.Stderr] = &handle{node: err, name: "/dev/stderr", write: true}
}

func get(f *os.File) *handle {
	if f == nil {
		return nil
	}
	h := handles[f]
	if h == nil || h.closed {
		return nil
	}
	return h
}

// M_osOpenFile models os.OpenFile.
func M_osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	n := Files[name]
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			n, flag = nil, 0
		}
	}
	if n != nil && flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrExist}
	}
	if n == nil {
		if flag&os.O_CREATE == 0 || name == "" {
			return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
		}
		n = &Node{FailAt: -1, Limit: CreateLimit, Created: true}
		Files[name] = n
	}
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if write && n.Mode&os.ModeDir != 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: ErrIO}
	}
	if flag&os.O_TRUNC != 0 && write {
		n.Data, n.Out = "", nil
		n.Created = true
	}
	if write && len(n.Out) == 0 {
		n.Out = []byte(n.Data)
	}
	f := new(os.File)
	handles[f] = &handle{node: n, name: name, write: write, add: flag&os.O_APPEND != 0}
	return f, nil
}

// M_osOpen models os.Open.
func M_osOpen(name string) (*os.File, error) { return M_osOpenFile(name, os.O_RDONLY, 0) }

// M_osCreate models os.Create.
func M_osCreate(name string) (*os.File, error) {
	return M_osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// M_fileRead models (*os.File).Read.
func M_fileRead(f *os.File, b []byte) (int, error) {
	h := get(f)
	if h == nil {
		return 0, os.ErrClosed
	}
	n := h.node
	if len(b) == 0 {
		return 0, nil
	}
	end := len(n.Data)
	if n.FailAt >= 0 && n.FailAt < end {
		end = n.FailAt
	}
	if h.pos >= end {
		if n.FailAt >= 0 && h.pos >= n.FailAt {
			return 0, &os.PathError{Op: "read", Path: h.name, Err: ErrIO}
		}
		return 0, io.EOF
	}
	if n.Most > 0 && end > h.pos+n.Most {
		end = h.pos + n.Most
	}
	k := copy(b, n.Data[h.pos:end])
	h.pos += k
	return k, nil
}

// M_fileWrite models (*os.File).Write.
func M_fileWrite(f *os.File, b []byte) (int, error) {
	h := get(f)
	if h == nil || !h.write {
		return 0, os.ErrClosed
	}
	n := h.node
	if h.add {
		h.pos = len(n.Out)
	}
	k := len(b)
	if n.Limit >= 0 && k > n.Limit-h.pos {
		k = n.Limit - h.pos
		if k < 0 {
			k = 0
		}
	}
	over := copy(n.Out[h.pos:], b[:k])
	n.Out = append(n.Out, b[over:k]...)
	h.pos += k
	if k < len(b) {
		return k, &os.PathError{Op: "write", Path: h.name, Err: ErrIO}
	}
	return k, nil
}

// M_fileWriteString models (*os.File).WriteString.
func M_fileWriteString(f *os.File, s string) (int, error) { return M_fileWrite(f, []byte(s)) }

// M_fileWriteTo models (*os.File).WriteTo.
func M_fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	b := make([]byte, 32*1024)
	total := int64(0)
	for {
		n, err := M_fileRead(f, b)
		if n > 0 {
			m, werr := w.Write(b[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// M_fileReadFrom models (*os.File).ReadFrom.
func M_fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b := make([]byte, 32*1024)
	total := int64(0)
	for {
		n, err := r.Read(b)
		if n > 0 {
			m, werr := M_fileWrite(f, b[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// M_fileClose models (*os.File).Close.
func M_fileClose(f *os.File) error {
	h := get(f)
	if h == nil {
		return os.ErrClosed
	}
	h.closed = true
	return nil
}

// M_fileTruncate models (*os.File).Truncate.
func M_fileTruncate(f *os.File, size int64) error {
	h := get(f)
	if h == nil || !h.write {
		return os.ErrClosed
	}
	for int64(len(h.node.Out)) < size {
		h.node.Out = append(h.node.Out, 0)
	}
	h.node.Out = h.node.Out[:size]
	return nil
}

// M_fileSeek models (*os.File).Seek.
func M_fileSeek(f *os.File, offset int64, whence int) (int64, error) {
	h := get(f)
	if h == nil {
		return 0, os.ErrClosed
	}
	if h.node.Mode&(os.ModeNamedPipe|os.ModeCharDevice|os.ModeSocket) != 0 {
		return 0, ErrIO
	}
	to := int(offset)
	switch whence {
	case io.SeekCurrent:
		to += h.pos
	case io.SeekEnd:
		if h.write {
			to += len(h.node.Out)
		} else {
			to += len(h.node.Data)
		}
	}
	if to < 0 || h.write && to > len(h.node.Out) {
		return 0, ErrIO
	}
	h.pos = to
	return int64(to), nil
}

// M_fileSync models (*os.File).Sync.
func M_fileSync(f *os.File) error {
	if get(f) == nil {
		return os.ErrClosed
	}
	return nil
}

// M_fileName models (*os.File).Name.
func M_fileName(f *os.File) string {
	if h := handles[f]; h != nil {
		return h.name
	}
	return ""
}

type info struct{ h *handle }

func (i info) Name() string { return i.h.name }
func (i info) Size() int64 {
	if i.h.node.Mode&(os.ModeNamedPipe|os.ModeCharDevice|os.ModeSocket) != 0 {
		return 0
	}
	return int64(len(i.h.node.Data))
}
func (i info) Mode() os.FileMode  { return i.h.node.Mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.h.node.Mode&os.ModeDir != 0 }
func (i info) Sys() interface{}   { return nil }

// M_fileStat models (*os.File).Stat.
func M_fileStat(f *os.File) (os.FileInfo, error) {
	h := get(f)
	if h == nil {
		return nil, os.ErrClosed
	}
	return info{h}, nil
}

// M_osStat models os.Stat and os.Lstat.
func M_osStat(name string) (os.FileInfo, error) {
	f, err := M_osOpen(name)
	if err != nil {
		return nil, err
	}
	return M_fileStat(f)
}

// M_osExit models os.Exit.
func M_osExit(code int) { panic(ExitCode(code)) }

// M_nothing models functions that only print help.
func M_nothing() {}

// M_osReadFile models os.ReadFile.
func M_osReadFile(name string) ([]byte, error) {
	f, err := M_osOpen(name)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(f)
}

// M_osWriteFile models os.WriteFile.
func M_osWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := M_osOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = M_fileWrite(f, data)
	return err
}

// M_osRemove models os.Remove.
func M_osRemove(name string) error {
	if Files[name] == nil {
		return &os.PathError{Op: "remove", Path: name, Err: os.ErrNotExist}
	}
	delete(Files, name)
	return nil
}

// M_osRename models os.Rename.
func M_osRename(from, to string) error {
	n := Files[from]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: os.ErrNotExist}
	}
	delete(Files, from)
	Files[to] = n
	return nil
}
