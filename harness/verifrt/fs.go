package verifrt

import (
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"syscall"
	"time"
)

// A virtual file system. Symbolically, the file functions of package os lead here; natively the real ones are used
// below the scratch directory of the replay.

// FSFault, when set, is asked before every operation ("read", "write", "mkdir", "remove", "rename", "stat", "list").
var FSFault func(op, name string) error

// FSEntry is a file or directory.
type FSEntry struct {
	Path string
	Dir  bool
	Data []byte
}

var fsEnts []*FSEntry

// FSVirtual empties the virtual file system.
func FSVirtual() {
	fsEnts = nil
	if !Symbolic() {
		if err := os.MkdirAll(FSRoot(), 0777); err != nil {
			panic(err)
		}
		return
	}
	fsMkdirAll(FSRoot(), 0777)
}

// FSRoot is the directory harnesses work in: a fixed one of the virtual file system, or one below the scratch directory.
func FSRoot() string {
	if Symbolic() {
		return "/v/root"
	}
	return os.Getenv("VERIF_SCRATCH") + "/v/root"
}

// FSList is every file and directory below /v (in name order), as seen from the virtual file system.
func FSList() []*FSEntry {
	var l []*FSEntry
	if Symbolic() {
		for _, e := range fsEnts {
			l = append(l, e)
		}
		return l
	}
	base := os.Getenv("VERIF_SCRATCH")
	filepath.Walk(base+"/v", func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		e := &FSEntry{Path: p[len(base):], Dir: i.IsDir()}
		if !e.Dir {
			e.Data, _ = os.ReadFile(p)
		}
		l = append(l, e)
		return nil
	})
	return l
}

// FSPut creates a file and its directories.
func FSPut(name string, data []byte) {
	if err := os.MkdirAll(path.Dir(name), 0777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, data, 0666); err != nil {
		panic(err)
	}
}

func fsClean(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = "/" + p
	}
	return path.Clean(p)
}

func fsErr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func fsNul(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return true
		}
	}
	return false
}

var fsRootEnt = &FSEntry{Path: "/", Dir: true}

func fsFind(p string) *FSEntry {
	if p == "/" {
		return fsRootEnt
	}
	for _, e := range fsEnts {
		if e.Path == p {
			return e
		}
	}
	return nil
}

func fsDir(p string) string {
	i := len(p) - 1
	for i > 0 && p[i] != '/' {
		i--
	}
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

func fsBase(p string) string {
	i := len(p) - 1
	for i >= 0 && p[i] != '/' {
		i--
	}
	return p[i+1:]
}

// fsLookup resolves name; missing parents give ENOENT, files as parents ENOTDIR.
func fsLookup(op, name string) (string, *FSEntry, error) {
	if FSFault != nil {
		if err := FSFault(op, name); err != nil {
			return "", nil, err
		}
	}
	if fsNul(name) {
		return "", nil, fsErr(op, name, syscall.EINVAL)
	}
	p := fsClean(name)
	if p == "" {
		return "", nil, fsErr(op, name, syscall.ENOENT)
	}
	if e := fsFind(p); e != nil {
		return p, e, nil
	}
	for d := fsDir(p); d != "/"; d = fsDir(d) {
		if e := fsFind(d); e != nil {
			if !e.Dir {
				return p, nil, fsErr(op, name, syscall.ENOTDIR)
			}
			break
		}
		if fsFind(fsDir(d)) != nil {
			return p, nil, fsErr(op, name, syscall.ENOENT)
		}
	}
	return p, nil, nil
}

func fsMkdir(name string, perm os.FileMode) error {
	p, e, err := fsLookup("mkdir", name)
	if err != nil {
		return err
	}
	if e != nil {
		return fsErr("mkdir", name, syscall.EEXIST)
	}
	if fsFind(fsDir(p)) == nil {
		return fsErr("mkdir", name, syscall.ENOENT)
	}
	fsEnts = append(fsEnts, &FSEntry{Path: p, Dir: true})
	return nil
}

func fsMkdirAll(name string, perm os.FileMode) error {
	if FSFault != nil {
		if err := FSFault("mkdir", name); err != nil {
			return err
		}
	}
	if fsNul(name) {
		return fsErr("mkdir", name, syscall.EINVAL)
	}
	p := fsClean(name)
	if p == "" {
		return fsErr("mkdir", name, syscall.ENOENT)
	}
	var todo []string
	for p != "/" {
		if e := fsFind(p); e != nil {
			if !e.Dir {
				return fsErr("mkdir", name, syscall.ENOTDIR)
			}
			break
		}
		todo = append(todo, p)
		p = fsDir(p)
	}
	for i := len(todo) - 1; i >= 0; i-- {
		fsEnts = append(fsEnts, &FSEntry{Path: todo[i], Dir: true})
	}
	return nil
}

func fsCreate(op, name string) (*FSEntry, error) {
	p, e, err := fsLookup(op, name)
	if err != nil {
		return nil, err
	}
	if e != nil {
		if e.Dir {
			return nil, fsErr("open", name, syscall.EISDIR)
		}
		return e, nil
	}
	if fsFind(fsDir(p)) == nil {
		return nil, fsErr("open", name, syscall.ENOENT)
	}
	if name[len(name)-1] == '/' {
		return nil, fsErr("open", name, syscall.EISDIR)
	}
	e = &FSEntry{Path: p}
	fsEnts = append(fsEnts, e)
	return e, nil
}

func fsWriteFile(name string, data []byte, perm os.FileMode) error {
	e, err := fsCreate("write", name)
	if err != nil {
		return err
	}
	e.Data = append([]byte(nil), data...)
	return nil
}

func fsReadFile(name string) ([]byte, error) {
	_, e, err := fsLookup("read", name)
	if err != nil {
		return nil, err
	}
	if e == nil {
		return nil, fsErr("open", name, syscall.ENOENT)
	}
	if e.Dir {
		return nil, fsErr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, e.Data...), nil
}

func fsRemove(name string) error {
	p, e, err := fsLookup("remove", name)
	if err != nil {
		return err
	}
	if e == nil {
		return fsErr("remove", name, syscall.ENOENT)
	}
	for _, o := range fsEnts {
		if fsDir(o.Path) == p {
			return fsErr("remove", name, syscall.ENOTEMPTY)
		}
	}
	fsDrop(e)
	return nil
}

func fsDrop(e *FSEntry) {
	var l []*FSEntry
	for _, o := range fsEnts {
		if o != e {
			l = append(l, o)
		}
	}
	fsEnts = l
}

func fsRemoveAll(name string) error {
	p, _, err := fsLookup("remove", name)
	if err != nil {
		return nil
	}
	var l []*FSEntry
	for _, o := range fsEnts {
		q := o.Path
		if q == p || len(q) > len(p) && q[:len(p)] == p && (q[len(p)] == '/' || p == "/") {
			continue
		}
		l = append(l, o)
	}
	fsEnts = l
	return nil
}

func fsRename(oldname, newname string) error {
	p, e, err := fsLookup("rename", oldname)
	if err != nil {
		return err
	}
	if e == nil {
		return fsErr("rename", oldname, syscall.ENOENT)
	}
	q, o, err := fsLookup("write", newname)
	if err != nil {
		return err
	}
	if o != nil && o.Dir || fsFind(fsDir(q)) == nil {
		return fsErr("rename", newname, syscall.ENOENT)
	}
	if o != nil {
		fsDrop(o)
	}
	for _, c := range fsEnts {
		if len(c.Path) > len(p) && c.Path[:len(p)+1] == p+"/" {
			c.Path = q + c.Path[len(p):]
		}
	}
	e.Path = q
	return nil
}

type fsInfo struct{ e *FSEntry }

func (i fsInfo) Name() string               { return fsBase(i.e.Path) }
func (i fsInfo) Size() int64                { return int64(len(i.e.Data)) }
func (i fsInfo) ModTime() time.Time         { return time.Time{} }
func (i fsInfo) IsDir() bool                { return i.e.Dir }
func (i fsInfo) Sys() interface{}           { return nil }
func (i fsInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i fsInfo) Info() (fs.FileInfo, error) { return i, nil }
func (i fsInfo) Mode() fs.FileMode {
	if i.e.Dir {
		return fs.ModeDir | 0777
	}
	return 0666
}

func fsStat(name string) (os.FileInfo, error) {
	_, e, err := fsLookup("stat", name)
	if err != nil {
		return nil, err
	}
	if e == nil {
		return nil, fsErr("stat", name, syscall.ENOENT)
	}
	return fsInfo{e}, nil
}

func fsChildren(name string) ([]*FSEntry, error) {
	p, e, err := fsLookup("list", name)
	if err != nil {
		return nil, err
	}
	if e == nil {
		return nil, fsErr("open", name, syscall.ENOENT)
	}
	if !e.Dir {
		return nil, fsErr("readdirent", name, syscall.ENOTDIR)
	}
	var l []*FSEntry
	for _, o := range fsEnts {
		if fsDir(o.Path) == p {
			i := len(l)
			l = append(l, o)
			for i > 0 && o.Path < l[i-1].Path {
				l[i] = l[i-1]
				i--
			}
			l[i] = o
		}
	}
	return l, nil
}

func fsReadDir(name string) ([]os.DirEntry, error) {
	l, err := fsChildren(name)
	if err != nil {
		return nil, err
	}
	var r []os.DirEntry
	for _, e := range l {
		r = append(r, fsInfo{e})
	}
	return r, nil
}

func fsReadDirInfo(name string) ([]fs.FileInfo, error) {
	l, err := fsChildren(name)
	if err != nil {
		return nil, err
	}
	var r []fs.FileInfo
	for _, e := range l {
		r = append(r, fsInfo{e})
	}
	return r, nil
}

type fsHandle struct {
	f     *os.File
	name  string
	e     *FSEntry
	pos   int
	write bool
	app   bool
	open  bool
}

var fsHandles []*fsHandle

func fsHandleOf(f *os.File) *fsHandle {
	for _, h := range fsHandles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func fsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	h := &fsHandle{f: new(os.File), name: name, open: true}
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		if flag&os.O_CREATE == 0 {
			_, e, err := fsLookup("write", name)
			if err != nil {
				return nil, err
			}
			if e == nil {
				return nil, fsErr("open", name, syscall.ENOENT)
			}
		} else if flag&os.O_EXCL != 0 {
			_, e, err := fsLookup("write", name)
			if err != nil {
				return nil, err
			}
			if e != nil {
				return nil, fsErr("open", name, syscall.EEXIST)
			}
		}
		e, err := fsCreate("write", name)
		if err != nil {
			return nil, err
		}
		if flag&os.O_TRUNC != 0 {
			e.Data = nil
		}
		h.e, h.write, h.app = e, true, flag&os.O_APPEND != 0
	} else {
		_, e, err := fsLookup("read", name)
		if err != nil {
			return nil, err
		}
		if e == nil {
			return nil, fsErr("open", name, syscall.ENOENT)
		}
		h.e = e
	}
	fsHandles = append(fsHandles, h)
	return h.f, nil
}

func fsOpen(name string) (*os.File, error) { return fsOpenFile(name, os.O_RDONLY, 0) }
func fsCreateF(name string) (*os.File, error) {
	return fsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func fsFileWrite(f *os.File, b []byte) (int, error) {
	h := fsHandleOf(f)
	if h == nil || !h.open {
		return 0, os.ErrClosed
	}
	if !h.write {
		return 0, fsErr("write", h.name, syscall.EBADF)
	}
	if h.app {
		h.pos = len(h.e.Data)
	}
	d := append([]byte(nil), h.e.Data[:h.pos]...)
	d = append(d, b...)
	if len(h.e.Data) > len(d) {
		d = append(d, h.e.Data[len(d):]...)
	}
	h.e.Data = d
	h.pos += len(b)
	return len(b), nil
}

func fsFileWriteString(f *os.File, s string) (int, error) { return fsFileWrite(f, []byte(s)) }

func fsFileRead(f *os.File, b []byte) (int, error) {
	h := fsHandleOf(f)
	if h == nil || !h.open {
		return 0, os.ErrClosed
	}
	if h.e.Dir {
		return 0, fsErr("read", h.name, syscall.EISDIR)
	}
	if h.pos >= len(h.e.Data) {
		return 0, io.EOF
	}
	n := copy(b, h.e.Data[h.pos:])
	h.pos += n
	return n, nil
}

func fsFileClose(f *os.File) error {
	h := fsHandleOf(f)
	if h == nil || !h.open {
		return os.ErrClosed
	}
	h.open = false
	return nil
}

func fsFileSync(f *os.File) error { return nil }
func fsFileName(f *os.File) string {
	if h := fsHandleOf(f); h != nil {
		return h.name
	}
	return ""
}
func fsFileStat(f *os.File) (os.FileInfo, error) {
	h := fsHandleOf(f)
	if h == nil {
		return nil, os.ErrClosed
	}
	return fsInfo{h.e}, nil
}
