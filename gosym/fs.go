package main

// The file functions of package os lead to the virtual file system of harness/verifrt/fs.go.

var redirects = map[string]string{
	"os.ReadFile": "fsReadFile", "io/ioutil.ReadFile": "fsReadFile", "os.WriteFile": "fsWriteFile", "io/ioutil.WriteFile": "fsWriteFile",
	"os.MkdirAll": "fsMkdirAll", "os.Mkdir": "fsMkdir", "os.Remove": "fsRemove", "os.RemoveAll": "fsRemoveAll", "os.Rename": "fsRename",
	"os.Stat": "fsStat", "os.Lstat": "fsStat", "os.ReadDir": "fsReadDir", "io/ioutil.ReadDir": "fsReadDirInfo",
	"os.OpenFile": "fsOpenFile", "os.Open": "fsOpen", "os.Create": "fsCreateF",
	"(*os.File).Write": "fsFileWrite", "(*os.File).WriteString": "fsFileWriteString", "(*os.File).Read": "fsFileRead", "(*os.File).Close": "fsFileClose",
	"(*os.File).Sync": "fsFileSync", "(*os.File).Name": "fsFileName", "(*os.File).Stat": "fsFileStat",
}

// Programs and HTTP clients lead to harness/verifenv.
var envRedirects = map[string]string{
	"os/exec.Command": "execCommand", "os/exec.CommandContext": "execCommandContext", "(*os/exec.Cmd).StdoutPipe": "execStdoutPipe", "(*os/exec.Cmd).StderrPipe": "execStderrPipe",
	"(*os/exec.Cmd).Start": "execStart", "(*os/exec.Cmd).Wait": "execWait", "(*os/exec.Cmd).Run": "execRun", "(*os/exec.Cmd).Output": "execOutput", "(*os/exec.Cmd).CombinedOutput": "execCombinedOutput",
	"(*net/http.Client).Do": "httpDo", "(*net/http.Client).Get": "httpGet", "(*net/http.Client).Post": "httpPost",
	"net/http.MaxBytesReader": "httpMaxBytesReader", "io.ReadAll": "ioReadAll",
	"(*bytes.Buffer).ReadFrom": "bufReadFrom", "io.Copy": "ioCopy",
}

// Without the model, these run as they are.
var optionalModel = map[string]bool{"httpMaxBytesReader": true, "ioReadAll": true, "bufReadFrom": true, "ioCopy": true}

const envPkg = modPath + "/verifenv"

func init() {
	add := func(pkg string, m map[string]string) {
		for from, to := range m {
			reg(func(w *Worker, a []Value) Value {
				p := w.eng.pkgs[pkg]
				if p == nil && optionalModel[to] {
					return notHandledV
				}
				if p == nil || p.Func(to) == nil {
					w.unsupported("no model of %s", to)
				}
				return w.callCode(w.codeFor(p.Func(to)), a, nil)
			}, from)
		}
	}
	add(rtPkg, redirects)
	add(envPkg, envRedirects)
}
