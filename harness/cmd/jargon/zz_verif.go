package main

import (
	"fmt"
	"io"
	"os"
	"strconv"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/internal/verifcli"
	"github.com/clipperhouse/jargon/internal/verifmodels"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

var vRegistry = map[string]func(){
	"c22_text":    H_c22_text,
	"c22_html":    H_c22_html,
	"c22_filters": H_c22_filters,
	"c22_read":    H_c22_read,
	"c22_write":   H_c22_write,
	"c22_long":    H_c22_long,
	"c22_words":   H_c22_words,
	"c23_filters": H_c23_filters,
	"c23_lang":    H_c23_lang,
	"c23_order":   H_c23_order,
	"c23_fifo":    H_c23_fifo,
	"c23_langs":   H_c23_langs,
	"c23_values":  H_c23_values,
	"c23_input":   H_c23_input,
	"c23_output":  H_c23_output,
	"c23_sizes":   H_c23_sizes,
}

func init() {
	if sym.Symbolic() || verifcli.Child() {
		return
	}
	if os.Getenv("VERIF_REPLAY") == "" {
		return
	}
	name := sym.Load()
	h := vRegistry[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", name)
		os.Exit(4)
	}
	h()
	os.Exit(0)
}

// vRun runs the command: on the model of the operating system in the executor, for real natively.
func vRun(r verifcli.Run) verifcli.Result {
	if !sym.Symbolic() {
		return verifcli.Native(r)
	}
	in := verifmodels.NewNode(r.Stdin)
	in.Mode = os.ModeNamedPipe
	if r.Terminal {
		in.Mode = os.ModeDevice | os.ModeCharDevice
		in.Data = ""
	}
	if r.Fails {
		in.Mode = os.ModeSocket
		in.FailAt = len(r.Stdin)
	}
	stdout, stderr := verifmodels.NewNode(""), verifmodels.NewNode("")
	stdout.Limit = r.Limit
	verifmodels.CreateLimit = r.Limit
	verifmodels.Standard(in, stdout, stderr)
	inName, outName := r.Names()
	verifmodels.Files = map[string]*verifmodels.Node{}
	if r.HasFile {
		f := verifmodels.NewNode(r.File)
		if r.Fifo {
			f.Mode = os.ModeNamedPipe
		}
		if r.Dir {
			f.Mode = os.ModeDir
			f.FailAt = 0
		}
		verifmodels.Files[inName] = f
	}
	if r.HasOld {
		f := verifmodels.NewNode(r.Old)
		f.Out, f.Limit = []byte(r.Old), r.Limit
		verifmodels.Files[outName] = f
	}
	os.Args = append([]string{"jargon"}, r.Args...)
	var res verifcli.Result
	res.Code = vMain()
	res.Stdout = string(stdout.Out)
	if f := verifmodels.Files[outName]; f != nil {
		res.Out, res.HasOut = string(f.Out), true
	}
	res.Stderr = len(stderr.Out) > 0
	return res
}

func vMain() (code int) {
	defer func() {
		if r := recover(); r != nil {
			c, ok := r.(verifmodels.ExitCode)
			if !ok {
				panic(r)
			}
			code = int(c)
		}
	}()
	main()
	return 0
}

// vReader delivers data, then io.EOF.
type vReader struct{ data string }

func (r *vReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

// vWant is the output of the library pipeline.
func vWant(data string, html, count, lines bool, filters ...jargon.Filter) (string, error) {
	var ts *jargon.TokenStream
	if html {
		ts = jargon.TokenizeHTML(&vReader{data})
	} else {
		ts = jargon.Tokenize(&vReader{data})
	}
	for _, f := range filters {
		ts = f(ts)
	}
	var out []byte
	n := 0
	for {
		t, err := ts.Next()
		if err != nil {
			return string(out), err
		}
		if t == nil {
			break
		}
		n++
		if !count {
			out = append(out, t.String()...)
			if lines {
				out = append(out, '\n')
			}
		}
	}
	if count {
		return strconv.Itoa(n) + "\n", nil
	}
	return string(out), nil
}

// vMode is the choice of modes.
type vMode struct{ html, count, lines bool }

func vModes(args *[]string, html bool) vMode {
	m := vMode{html: html}
	if html {
		*args = append(*args, "-html")
	}
	switch sym.Choice("mode", 4) {
	case 1:
		m.lines = true
		*args = append(*args, "-lines")
	case 2:
		m.count = true
		*args = append(*args, "-count")
	case 3:
		m.count, m.lines = true, true
		*args = append(*args, "-lines", "-count")
	}
	return m
}

// vGive hands the data to the command by file or pipe and takes the output by file or not.
func vGive(args []string, data string) verifcli.Run {
	r := verifcli.Run{Limit: -1}
	if sym.Choice("input", 2) == 0 {
		r.Stdin = data
	} else {
		r.Terminal, r.HasFile, r.File = true, true, data
		args = append(args, "-file", "in.txt")
	}
	if sym.Choice("output", 2) == 1 {
		args = append(args, "-out", "out.txt")
	}
	r.Args = args
	return r
}

// vCheck compares a successful run.
func vCheck(r verifcli.Run, want string) {
	res := vRun(r)
	if len(res.Stdout)+len(res.Out) > 8192 {
		sym.Observe(fmt.Sprint(res.Code, len(res.Stdout), len(res.Out)))
	} else {
		sym.Observe(fmt.Sprint(res.Code) + res.Stdout + "|" + res.Out)
	}
	sym.Assert(res.Code == 0, "the command succeeds")
	named := false
	for _, a := range r.Args {
		if a == "-out" {
			named = true
		}
	}
	sym.Assert(res.HasOut == named, "the named output file is written, no other")
	if named {
		sym.Assert(res.Out == want, "the output file holds what the library pipeline gives")
		sym.Assert(res.Stdout == "", "nothing goes to standard output")
	} else {
		sym.Assert(res.Stdout == want, "standard output holds what the library pipeline gives")
	}
	sym.Assert(!res.Stderr, "no error is reported")
}

// H_c22_text: any short text, all modes, all ways in and out.
func H_c22_text() {
	var args []string
	m := vModes(&args, false)
	data := sym.String("text", sym.Param("n", 2))
	want, err := vWant(data, m.html, m.count, m.lines)
	sym.Assert(err == nil, "no error")
	vCheck(vGive(args, data), want)
	sym.Cover("text")
}

// H_c22_html: short HTML.
func H_c22_html() {
	var args []string
	m := vModes(&args, true)
	data := sym.Of("text", "a </>&;!-\n", sym.Param("n", 2)) + []string{"", "<b>it's</b>", "<script>a b</script> c", "<!-- a b"}[sym.Choice("rest", 4)]
	want, err := vWant(data, m.html, m.count, m.lines)
	sym.Assert(err == nil, "no error")
	vCheck(vGive(args, data), want)
	sym.Cover("html")
}

var vOptions = []string{"-ascii", "-contractions", "-lemmas", "-distinct", "-stem"}

// vFilter is the filter that an option stands for.
func vFilter(option, lang string) jargon.Filter {
	switch option {
	case "-ascii":
		return ascii.Fold
	case "-contractions":
		return contractions.Expand
	case "-lemmas":
		return (*jargon.TokenStream).Lemmas
	case "-distinct":
		return (*jargon.TokenStream).Distinct
	case "-stack":
		return stackoverflow.Tags
	}
	switch lang {
	case "french":
		return stemmer.French
	case "norwegian":
		return stemmer.Norwegian
	case "russian":
		return stemmer.Russian
	case "spanish":
		return stemmer.Spanish
	case "swedish":
		return stemmer.Swedish
	}
	return stemmer.English
}

// vText tells the filters and their orders apart: folding, expanding, stemming and
// dropping duplicates or words that were not changed give different results in any other order.
const vText = "café cafés don't don’t running runs run l'été бегали. don't"

// H_c22_filters: filters and modes together.
func H_c22_filters() {
	var args []string
	m := vModes(&args, sym.Choice("html", 2) == 1)
	var fs []jargon.Filter
	for i := sym.Choice("filters", 3); i > 0; i-- {
		o := vOptions[sym.Choice("filter", len(vOptions))]
		args = append(args, o)
		fs = append(fs, vFilter(o, ""))
	}
	data := vText + sym.Of("text", "a é<", 1)
	want, err := vWant(data, m.html, m.count, m.lines, fs...)
	sym.Assert(err == nil, "no error")
	vCheck(vGive(args, data), want)
	sym.Cover("filters")
}

func vPrefix(s, of string) bool { return len(s) <= len(of) && of[:len(s)] == s }

// H_c22_read: reading fails after some of the input.
func H_c22_read() {
	var args []string
	m := vModes(&args, sym.Choice("html", 2) == 1)
	data := []string{"", "a", "a b ", "it's <b>done", "a\n\n"}[sym.Choice("text", 5)] + sym.Of("text", "a <", sym.Choice("more", 2))
	if sym.Choice("filter", 2) == 1 {
		args = append(args, "-ascii")
	}
	r := verifcli.Run{Limit: -1}
	if sym.Choice("input", 2) == 0 {
		r.Stdin, r.Fails = data, true
	} else {
		r.Terminal, r.HasFile, r.Dir = true, true, true
		args = append(args, "-file", "in.txt")
	}
	if sym.Choice("output", 2) == 1 {
		args = append(args, "-out", "out.txt")
	}
	r.Args = args
	res := vRun(r)
	sym.Assert(res.Code != 0, "a read error is not reported as success")
	sym.Assert(res.Stderr, "the error is shown")
	if m.count {
		sym.Assert(res.Stdout == "" && res.Out == "", "no count of part of the input")
	}
	sym.Cover("read")
}

// H_c22_write: the destination accepts only some of the output.
func H_c22_write() {
	var args []string
	m := vModes(&args, sym.Choice("html", 2) == 1)
	data := []string{"a", "a b ", "it's <b>done", "a\n\n"}[sym.Choice("text", 4)]
	n := sym.Size("size", 1, 300, 1, 2, 3)
	if sym.Param("large", 0) == 1 {
		n = []int{4097, 70000}[sym.Choice("size", 2)]
	}
	more := make([]byte, 0, n)
	for len(more) < n {
		more = append(more, "ab.\n"[len(more)%4])
	}
	data += string(more) + sym.Of("text", "a ", 1)
	want, err := vWant(data, m.html, m.count, m.lines)
	sym.Assert(err == nil, "no error")
	r := vGive(args, data)
	switch sym.Choice("limit", 5) {
	case 0:
		r.Limit = 0
	case 1:
		r.Limit = 1
	case 2:
		r.Limit = len(want) - 1
	case 3:
		r.Limit = len(want) / 2
	default:
		r.Limit = len(want)
	}
	res := vRun(r)
	got := res.Stdout + res.Out
	if r.Limit == len(want) {
		sym.Assert(res.Code == 0 && got == want, "output that is accepted is reported as success")
	} else {
		sym.Assert(res.Code != 0, "output that is not accepted is not reported as success")
		sym.Assert(res.Stderr, "the error is shown")
		sym.Assert(vPrefix(got, want), "what was written is the beginning of the output")
	}
	sym.Cover("write")
}

// vLong is n bytes of varied text.
func vLong(n int) string {
	b := make([]byte, 0, n)
	for i := 0; len(b) < n; i++ {
		b = append(b, "it's a "[i%7])
		if i%97 == 96 {
			b = append(b, '.', '\n')
		}
	}
	return string(b[:n])
}

// H_c22_long: more input and output than the buffers hold.
func H_c22_long() {
	var args []string
	m := vModes(&args, false)
	var n int
	if sym.Param("large", 0) == 1 {
		n = []int{65535, 65537}[sym.Choice("n", 2)]
	} else {
		n = sym.Size("n", 100, 9000, 4095, 4096, 8191)
	}
	data := vLong(n)
	if sym.Param("large", 0) == 0 {
		data += sym.Of("text", "a.", 1)
	}
	want, err := vWant(data, m.html, m.count, m.lines)
	sym.Assert(err == nil, "no error")
	vCheck(vGive(args, data), want)
	sym.Cover("long")
}

// H_c22_words: tokens longer than the buffers.
func H_c22_words() {
	var args []string
	m := vModes(&args, sym.Choice("html", 2) == 1)
	n := sym.Size("n", 100, 9000, 4096, 8192, 8193, 65537)
	long := make([]byte, n)
	for i := range long {
		long[i] = "abc"[i%3]
	}
	at := sym.Choice("kind", 3)
	data := []string{"it " + string(long) + " b", "<a b='" + string(long) + "'>c", "é<!-- " + string(long) + "-->"}[at] + sym.Of("text", "a.", 1)
	var fs []jargon.Filter
	if sym.Choice("filter", 2) == 1 {
		args = append(args, "-ascii")
		fs = append(fs, ascii.Fold)
	}
	want, err := vWant(data, m.html, m.count, m.lines, fs...)
	sym.Assert(err == nil, "no error")
	if !m.count && !m.lines && len(fs) == 0 {
		sym.Assert(want == data, "the pipeline gives all of the text")
	}
	vCheck(vGive(args, data), want)
	sym.Cover("words")
}

// H_c23_filters: any list of filter options.
func H_c23_filters() {
	stackoverflow.Tags(jargon.TokenizeString("warm up")).Count()
	var args []string
	var fs []jargon.Filter
	k := sym.Choice("filters", sym.Param("k", 2)+1)
	for i := 0; i < k; i++ {
		o := vOptions[sym.Choice("filter", len(vOptions))]
		on := true
		switch sym.Choice("form", 5) {
		case 0:
			args = append(args, o)
		case 1:
			args = append(args, "-"+o)
		case 2:
			args = append(args, o+"=true")
		case 3:
			args = append(args, "-"+o+"=1")
		default:
			args = append(args, o+"=false")
			on = false
		}
		if on {
			fs = append(fs, vFilter(o, ""))
		}
	}
	if sym.Choice("stack", 2) == 1 {
		args = append(args, "-lines", "-stack")
		fs = append(fs, stackoverflow.Tags)
	} else {
		args = append(args, "-lines")
	}
	data := vText + " Ruby on Rails" + sym.Of("text", "a .", 1)
	want, err := vWant(data, false, false, true, fs...)
	sym.Assert(err == nil, "no error")
	vCheck(verifcli.Run{Args: args, Stdin: data, Limit: -1}, want)
	sym.Cover("filters")
}

// H_c23_lang: the language of the stemmer.
func H_c23_lang() {
	langs := []string{"english", "french", "norwegian", "russian", "spanish", "swedish"}
	data := "running continuellement havnedistriktene бегали chicharrones jaktkarlarne" + sym.Of("text", "a .", 1)
	var args []string
	k := sym.Choice("lang", len(langs)+4)
	lang := "english"
	known := true
	if k < len(langs) {
		lang = langs[k]
	} else {
		lang = []string{"englis", "klingon", "English", " "}[k-len(langs)]
		known = false
	}
	switch sym.Choice("order", 5) {
	case 0:
		args = []string{"-lang", lang, "-stem"}
	case 1:
		args = []string{"-stem", "-lang=" + lang}
	case 2:
		args = []string{"-stem", "-lang", lang, "-ascii"}
	case 3:
		args = []string{"-stem"} // english unless given
		lang, known = "english", true
	default:
		args = []string{"--lang", lang, "--stem=t"}
	}
	fs := []jargon.Filter{vFilter("-stem", lang)}
	if args[len(args)-1] == "-ascii" {
		fs = append(fs, ascii.Fold)
	}
	r := verifcli.Run{Args: args, Stdin: data, Limit: -1}
	if !known {
		res := vRun(r)
		sym.Assert(res.Code != 0 && res.Stderr, "an unknown language is an error")
		sym.Assert(res.Stdout == "", "and nothing is written")
		sym.Cover("unknown")
		return
	}
	want, err := vWant(data, false, false, false, fs...)
	sym.Assert(err == nil, "no error")
	vCheck(r, want)
	sym.Cover("lang")
}

// H_c23_input: which input is used.
func H_c23_input() {
	text := "a b " + sym.Of("text", "a .", 1)
	r := verifcli.Run{Limit: -1}
	r.Terminal = sym.Choice("terminal", 2) == 1
	if !r.Terminal {
		r.Stdin = text
	}
	file := sym.Choice("file", 4)
	switch file {
	case 1:
		r.HasFile, r.File = true, text
		r.Args = []string{"-file", "in.txt"}
	case 2:
		r.Args = []string{"-file", "in.txt"} // no such file
	case 3:
		r.HasFile, r.File = true, "something else" // not asked for
	}
	if sym.Choice("empty", 2) == 1 {
		r.Stdin, r.File, text = "", "", ""
	}
	if sym.Choice("count", 2) == 1 {
		r.Args = append(r.Args, "-count")
	}
	pipe := !r.Terminal
	switch {
	case file == 2:
		res := vRun(r)
		sym.Assert(res.Code != 0 && res.Stderr, "an unopenable file is an error")
		sym.Assert(res.Stdout == "", "and nothing is written")
	case pipe && file == 1:
		res := vRun(r)
		sym.Assert(res.Code != 0 && res.Stderr, "both inputs are refused")
		sym.Assert(res.Stdout == "", "and nothing is written")
	case !pipe && file != 1:
		res := vRun(r)
		sym.Assert(res.Stderr, "no input is refused with the usage")
		sym.Assert(res.Stdout == "", "and nothing is written")
	default:
		want, _ := vWant(text, false, len(r.Args) > 0 && r.Args[len(r.Args)-1] == "-count", false)
		vCheck(r, want)
	}
	sym.Cover("input")
}

// H_c23_output: where the output goes.
func H_c23_output() {
	text := "a b " + sym.Of("text", "a .", 1)
	args := []string{"-ascii"}
	switch sym.Choice("out", 4) {
	case 0:
		args = append(args, "-out", "out.txt")
	case 1:
		args = append([]string{"--out=out.txt"}, args...)
	case 2:
		args = append(args, "-out", "missing/out.txt")
	}
	r := verifcli.Run{Args: args, Limit: -1}
	if sym.Choice("input", 2) == 0 {
		r.Stdin = text
	} else {
		r.Terminal, r.HasFile, r.File = true, true, text
		r.Args = append(r.Args, "-file=in.txt")
	}
	if old := sym.Choice("existing", 4); old > 0 && args[len(args)-1] != "missing/out.txt" {
		r.HasOld, r.Old = true, []string{"", "x", "something longer than the output that is written to it"}[old-1]
	}
	res := vRun(r)
	want, _ := vWant(text, false, false, false, ascii.Fold)
	switch {
	case args[len(args)-1] == "missing/out.txt":
		sym.Assert(res.Code != 0 && res.Stderr && res.Stdout == "", "an output file that cannot be created is an error")
	case len(args) > 1:
		sym.Assert(res.Code == 0 && res.HasOut && res.Out == want && res.Stdout == "", "the output goes to the named file")
	default:
		sym.Assert(res.Code == 0 && res.HasOut == r.HasOld && res.Out == r.Old && res.Stdout == want, "the output goes to standard output")
	}
	sym.Cover("output")
}

// H_c23_sizes: input of any size is read whole.
func H_c23_sizes() {
	var n int
	if sym.Param("large", 0) == 1 {
		n = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 70000}[sym.Choice("n", 4)]
	} else {
		n = sym.Size("n", 0, 140000, 0, 1, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131073)
	}
	// words of 1023 letters, each with a space, and what remains
	data := make([]byte, n)
	tokens := 0
	for i := range data {
		data[i] = 'a'
		if i%1024 == 1023 {
			data[i] = ' '
		}
		if i%1024 == 1023 || i%1024 == 0 {
			tokens++
		}
	}
	args := []string{"-count"}
	r := verifcli.Run{Limit: -1}
	if sym.Choice("input", 2) == 0 {
		r.Stdin = string(data)
	} else {
		r.Terminal, r.HasFile, r.File = true, true, string(data)
		args = append(args, "-file", "in.txt")
	}
	r.Args = args
	vCheck(r, strconv.Itoa(tokens)+"\n")
	sym.Cover("sizes")
}

// H_c23_order: any three filter options, the same ones too, in any order, among other options.
func H_c23_order() {
	stackoverflow.Tags(jargon.TokenizeString("warm up")).Count()
	all := []string{"-ascii", "-contractions", "-lemmas", "-distinct", "-stem", "-stack"}
	var args []string
	var fs []jargon.Filter
	between := sym.Choice("between", 4)
	for i := 0; i < sym.Param("k", 3); i++ {
		if i == between {
			args = append(args, "-lines")
		}
		o := all[sym.Choice("filter", len(all))]
		args = append(args, o)
		fs = append(fs, vFilter(o, ""))
	}
	if between == 3 {
		args = append(args, "-lines")
	}
	data := vText + " ruby on rails, ror & Rails; runs"
	want, err := vWant(data, false, false, true, fs...)
	sym.Assert(err == nil, "no error")
	vCheck(verifcli.Run{Args: args, Stdin: data, Limit: -1}, want)
	sym.Cover("order")
}

// H_c23_langs: the language given anywhere among three filter options.
func H_c23_langs() {
	stackoverflow.Tags(jargon.TokenizeString("warm up")).Count()
	all := []string{"-ascii", "-contractions", "-stem", "-stack", "-distinct"}
	lang := []string{"french", "russian"}[sym.Choice("lang", 2)]
	at := sym.Choice("place", 4)
	var args []string
	var fs []jargon.Filter
	for i := 0; i < 3; i++ {
		if i == at {
			args = append(args, "-lang", lang)
		}
		o := all[sym.Choice("filter", len(all))]
		args = append(args, o)
		fs = append(fs, vFilter(o, lang))
	}
	if at == 3 {
		args = append(args, "-lang", lang)
	}
	data := "it's é continuellement бегали running, ruby on rails continuellement"
	want, err := vWant(data, false, false, false, fs...)
	sym.Assert(err == nil, "no error")
	vCheck(verifcli.Run{Args: args, Stdin: data, Limit: -1}, want)
	sym.Cover("langs")
}

// H_c23_fifo: the named file is a pipe, whose size is not known beforehand.
func H_c23_fifo() {
	n := []int{0, 1, 4095, 4096, 5000, 70000}[sym.Choice("n", 6)]
	data := vLong(n) + sym.Of("text", "a.", 1)
	r := verifcli.Run{Limit: -1, Terminal: true, HasFile: true, Fifo: true, File: data}
	r.Args = []string{"-file", "in.txt"}
	if sym.Choice("output", 2) == 1 {
		r.Args = append(r.Args, "-out", "out.txt")
	}
	vCheck(r, data)
	sym.Cover("fifo")
}

// H_c23_values: files named like options, and option names that are not options.
func H_c23_values() {
	option := vOptions[sym.Choice("name", len(vOptions))]
	name := []string{"", "-"}[sym.Choice("dashes", 2)] + option + []string{"", "=true"}[sym.Choice("value", 2)]
	r := verifcli.Run{Limit: -1, Stdin: vText + sym.Of("text", "a .", 1)}
	data := r.Stdin
	way := sym.Choice("way", 4)
	var opt []string
	switch way {
	case 0:
		opt = []string{"-out", name}
		r.OutName = name
	case 1:
		opt = []string{[]string{"-file", "--file"}[sym.Choice("form", 2)], name}
		r.InName, r.File, r.HasFile, r.Stdin, r.Terminal = name, r.Stdin, true, "", true
	case 2:
		opt = []string{"--", name}
	default:
		opt = []string{[]string{"x", "", "in.txt", "1"}[sym.Choice("word", 4)]}
	}
	var fs []jargon.Filter
	before, after := sym.Choice("before", 2) == 1, sym.Choice("after", 2) == 1
	if before {
		r.Args = append(r.Args, "-ascii", "-lines")
		fs = append(fs, ascii.Fold)
	}
	count := sym.Choice("count", 2) == 1
	if count {
		r.Args = append(r.Args, "-count")
	}
	r.Args = append(r.Args, opt...)
	if after && way < 2 {
		r.Args = append(r.Args, "-stem")
		fs = append(fs, stemmer.English)
	}
	want, err := vWant(data, false, count, before, fs...)
	sym.Assert(err == nil, "no error")
	vCheck(r, want)
	sym.Cover("values")
}
