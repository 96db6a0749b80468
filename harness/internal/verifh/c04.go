package main

import (
	"strings"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c04_pieces"] = H_c04_pieces
	registry["c04_elements"] = H_c04_elements
	registry["c04_long"] = H_c04_long
	registry["c04_names"] = H_c04_names
	registry["c04_many"] = H_c04_many
	registry["c04_texts"] = H_c04_texts
}

// what a piece of a document becomes
const (
	asText = iota
	asMarkup
	asBody
)

type piece struct {
	text string
	kind int
}

func checkPieces(ps []piece) {
	doc := ""
	for _, p := range ps {
		doc += p.text
	}
	ts := jargon.TokenizeHTML(strings.NewReader(doc))
	got, err := drain(ts)
	sym.Observe(show(got))
	sym.Assert(err == nil, "no error")
	i := 0
	for _, p := range ps {
		if p.text == "" {
			continue
		}
		if p.kind == asText {
			want, _ := drain(jargon.TokenizeString(p.text))
			for _, w := range want {
				sym.Assert(i < len(got) && sameToken(got[i], w), "text is split as plain text is")
				if i >= len(got) {
					return
				}
				i++
			}
			sym.Cover("text")
			continue
		}
		sym.Assert(i < len(got) && got[i].String() == p.text, "markup and script bodies are one verbatim token each")
		if i >= len(got) {
			return
		}
		sym.Assert(!got[i].IsSpace() && !got[i].IsLemma(), "neither markup nor bodies are space or lemma")
		sym.Assert(got[i].IsPunct() == (p.kind == asMarkup), "markup is punctuation, bodies are not")
		if p.kind == asMarkup {
			sym.Cover("markup")
		} else {
			sym.Cover("body")
		}
		i++
	}
	sym.Assert(i == len(got), "nothing else is delivered")
}

var tags = []string{"<b>", "</b>", "<br/>", "<!DOCTYPE html>", "<!--x-->", "<A href=\"y z\">", "</scripts>", "<styles>", "</script>", "</STYLE>"}

// H_c04_pieces: k pieces, each text, a tag, a comment, or a script or style element, in any order.
func H_c04_pieces() {
	var ps []piece
	text := false
	for i := sym.Param("k", 2); i > 0; i-- {
		k := sym.Choice("piece", 8)
		switch {
		case k == 0:
			if !text {
				ps = append(ps, piece{sym.Of("text", "a .&'1", 2), asText})
				text = true
				continue
			}
			ps = append(ps, piece{tags[0], asMarkup})
		case k == 1:
			ps = append(ps, piece{"<script>", asMarkup}, piece{sym.Of("body", "a .&'", 2), asBody}, piece{"</script>", asMarkup})
		case k == 2:
			ps = append(ps, piece{"<STYLE type=x>", asMarkup}, piece{sym.Of("body", " a.", 1), asBody}, piece{"</Style>", asMarkup})
		case k == 3:
			ps = append(ps, piece{"<script/>", asMarkup}, piece{sym.Of("body", "a .", sym.Choice("length", 2)), asBody}, piece{"</script>", asMarkup})
		case k == 4:
			ps = append(ps, piece{"<!-- " + sym.Of("comment", " a<&>", 1) + " -->", asMarkup})
		case k == 5:
			ps = append(ps, piece{"<i x=\"" + sym.Of("attr", "<>a '&", 1) + "\">", asMarkup})
		case k == 6:
			ps = append(ps, piece{tags[sym.Choice("tag", len(tags))], asMarkup})
		default:
			ps = append(ps, piece{"<style>", asMarkup}, piece{"a<b</script>", asBody}, piece{"</style>", asMarkup})
		}
		text = false
	}
	checkPieces(ps)
}

// H_c04_elements: an element of any name of n letters, text before, inside and after.
func H_c04_elements() {
	n := sym.Param("n", 3)
	name := sym.Of("name", "abScript", 1) + sym.Of("name", "abscrieltyp", n-1)
	body := "don't a"
	kind := asText
	low := strings.ToLower(name)
	if low == "script" || low == "style" {
		kind = asBody
	}
	if low == "plaintext" {
		sym.Assume(false)
	}
	checkPieces([]piece{{"x y", asText}, {"<" + name + ">", asMarkup}, {body, kind}, {"</" + name + ">", asMarkup}, {"p q's", asText}, {"<b>", asMarkup}, {"it", asText}})
}

// H_c04_long: many elements and long texts.
func H_c04_long() {
	n := sym.Size("n", 2, 400, 2, 10, 65, 130)
	var ps []piece
	for i := 0; i < n; i++ {
		ps = append(ps, piece{"<b>", asMarkup}, piece{"a b.", asText}, piece{"</b>", asMarkup})
	}
	switch sym.Choice("last", 3) {
	case 0:
		ps = append(ps, piece{"<script>", asMarkup}, piece{sym.Of("body", "a .&", 2), asBody}, piece{"</script>", asMarkup}, piece{"it's " + sym.Of("text", "a .", 1), asText})
	case 1:
		ps = append(ps, piece{sym.Of("text", "a .&", 2), asText})
	default:
		ps = append(ps, piece{"<script>", asMarkup}, piece{repeat("a b", n), asBody}, piece{"</script>", asMarkup})
	}
	checkPieces(ps)
}

var elements = strings.Fields(`a abbr address applet area article aside audio b base basefont bdi bdo bgsound big blink
blockquote body br button canvas caption center cite code col colgroup command content data datalist dd del details dfn
dialog dir div dl dt element em embed fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head
header hgroup hr html i iframe image img input ins isindex kbd keygen label legend li link listing main map mark marquee
math menu menuitem meta meter nav nobr noembed noframes noscript object ol optgroup option output p param picture
pre progress q rb rp rt rtc ruby s samp script section select shadow slot small source spacer span strike strong style sub
summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp
desc foreignObject mi mo mn ms mtext x-y custom scripts styl scrip`)

// H_c04_names: an element of every HTML name, in lower and upper case, with and without attributes.
func H_c04_names() {
	name := elements[sym.Choice("name", len(elements))]
	kind := asText
	if name == "script" || name == "style" {
		kind = asBody
	}
	end := name
	if sym.Choice("case", 2) == 1 {
		name, end = strings.ToUpper(name), strings.ToUpper(name[:1])+name[1:]
	}
	attr := []string{"", " x", " type=\"text/html\"", " src=/a/ ", " /"}[sym.Choice("attribute", 5)]
	checkPieces([]piece{{"it's ", asText}, {"<" + name + attr + ">", asMarkup}, {"don't " + sym.Of("text", "a.& ", 1), kind},
		{"</" + end + ">", asMarkup}, {" p q's", asText}, {"<" + name + ">", asMarkup}, {"a b", kind}, {"</" + name + " >", asMarkup}, {"it is.", asText}})
}

// H_c04_many: many script and style elements, whose end tags have any form.
func H_c04_many() {
	n := sym.Size("n", 1, 300, 1, 5, 17, 40)
	end := []string{"</script>", "</script >", "</SCRIPT\n>", "</script/>", "</script a=b>"}[sym.Choice("end", 5)]
	var ps []piece
	for i := 0; i < n; i++ {
		if i%3 == 1 {
			ps = append(ps, piece{"<style>", asMarkup}, piece{"b{c: d}", asBody}, piece{"</style\t>", asMarkup}, piece{" ", asText})
			continue
		}
		ps = append(ps, piece{"<script>", asMarkup}, piece{"a = b; ", asBody}, piece{end, asMarkup}, piece{"it is", asText})
	}
	last := []string{"script", "style", "b"}[sym.Choice("last", 3)]
	kind := asBody
	if last == "b" {
		kind = asText
	}
	ps = append(ps, piece{"<" + last + ">", asMarkup}, piece{"x " + sym.Of("body", "a .&", 1), kind}, piece{"</" + last + ">", asMarkup}, piece{"don't " + sym.Of("text", "a .&", 1), asText})
	checkPieces(ps)
	sym.Cover("many")
}

// H_c04_texts: white space, entities and punctuation alone, as text and as a script's body.
func H_c04_texts() {
	n := sym.Param("n", 2)
	s := sym.Of("text", " \n\r\t&;a#.1", n)
	switch sym.Choice("place", 5) {
	case 0:
		checkPieces([]piece{{s, asText}})
	case 1:
		checkPieces([]piece{{"<b>", asMarkup}, {s, asText}, {"</b>", asMarkup}})
	case 2:
		checkPieces([]piece{{"a", asText}, {"<script>", asMarkup}, {s, asBody}, {"</script>", asMarkup}, {"it's", asText}})
	case 3:
		checkPieces([]piece{{"<style media=x>", asMarkup}, {s, asBody}, {"</style>", asMarkup}, {s, asText}})
	default:
		checkPieces([]piece{{"<b title=\"" + s + "\">", asMarkup}, {"a", asText}, {"<!--" + s + "-->", asMarkup}})
	}
	sym.Cover("texts")
}
