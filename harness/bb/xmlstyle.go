package main

import (
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// xnode is an element of an XML document.
type xnode struct {
	tag   string
	attrs [][2]string
	text  string
	kids  []*xnode
}

func (n *xnode) add(k *xnode) *xnode {
	n.kids = append(n.kids, k)
	return k
}

// tree gives the configuration as an XML document.
func (c Config) tree() *xnode {
	root := &xnode{tag: "rtcg-gen"}
	if c.Directory != "" {
		root.add(&xnode{tag: "directory", text: c.Directory})
	}
	for _, v := range c.Variants {
		cpp := root.add(&xnode{tag: "cpp", attrs: [][2]string{{"variant", v.Name}}})
		if v.Makefile {
			cpp.add(&xnode{tag: "makefile"})
		}
		if v.Catkin != nil {
			v.Catkin.tree(cpp.add(&xnode{tag: "catkin"}))
		}
		for _, o := range v.Overrides {
			cpp.add(&xnode{tag: "channel", attrs: [][2]string{{"name", o.Ch}, {"type", o.Type}}})
		}
		for _, i := range v.Includes {
			inc := cpp.add(&xnode{tag: "include", attrs: [][2]string{{"src", i.Src}}})
			if i.System {
				inc.attrs = append(inc.attrs, [2]string{"system", "true"})
			}
		}
	}
	return root
}

// tree adds the package metadata to its parent.
func (p Package) tree(parent *xnode) {
	if p.Bare {
		return
	}
	n := parent.add(&xnode{tag: "package"})
	if p.Format != nil {
		n.attrs = append(n.attrs, [2]string{"format", *p.Format})
	}
	elem := func(tag string, text *string) {
		if text != nil {
			n.add(&xnode{tag: tag, text: *text})
		}
	}
	elem("name", p.Name)
	elem("version", p.Version)
	elem("description", p.Description)
	if p.Maintainer != nil {
		n.add(&xnode{tag: "maintainer", text: p.Maintainer.Name, attrs: [][2]string{{"email", p.Maintainer.Email}}})
	}
	elem("license", p.License)
	for i := range p.Buildtool {
		elem("buildtool_depend", &p.Buildtool[i])
	}
	for i := range p.Depends {
		elem("depend", &p.Depends[i])
	}
}

// genStyle draws how a configuration is spelled in XML; 0 is the plain way.
func genStyle(t *rapid.T) int {
	if model.Chance(t, "styled", 50) {
		return 1 + rapid.Uniform(1<<20).Draw(t, "style")
	}
	return 0
}

// styled renders a document in one of the many ways that mean the same.
func styled(root *xnode, style int) string {
	s := &xmlStyle{r: rand.New(rand.NewSource(int64(style)))}
	s.b.WriteString(s.pick("", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n\n"))
	s.space(true)
	s.element(root)
	s.space(true)
	return s.b.String()
}

type xmlStyle struct {
	r *rand.Rand
	b strings.Builder
}

func (s *xmlStyle) pick(xs ...string) string { return xs[s.r.Intn(len(xs))] }

func (s *xmlStyle) chance(pct int) bool { return s.r.Intn(100) < pct }

// space writes what doesn't mean anything between elements.
func (s *xmlStyle) space(outside bool) {
	for s.chance(60) {
		xs := []string{"\n", "  ", "\t", "\r\n", "<!-- a comment -->", "<!-- <cpp variant=\"ros\"/> -->", "<!---->", "<!-- & -->", "<?note some text?>"}
		if !outside {
			xs = append(xs, "<![CDATA[]]>", "<![CDATA[  ]]>", "&#10;")
		}
		s.b.WriteString(s.pick(xs...))
	}
}

func (s *xmlStyle) element(n *xnode) {
	s.b.WriteString("<" + n.tag)
	attrs := append([][2]string{}, n.attrs...)
	if n.tag == "include" {
		// Being a system include has several spellings.
		if len(attrs) > 1 {
			attrs[1][1] = s.pick("true", "true", "1")
		} else if s.chance(50) {
			attrs = append(attrs, [2]string{"system", s.pick("false", "false", "0")})
		}
	}
	s.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	for _, a := range attrs {
		q := s.pick("\"", "'")
		s.b.WriteString(s.pick(" ", " ", "\n\t", "  ") + a[0] + s.pick("=", "=", " = ", "\n=") + q)
		s.chars(a[1])
		s.b.WriteString(q)
	}
	s.b.WriteString(s.pick("", "", " ", "\n"))
	if len(n.kids) == 0 && n.text == "" && s.chance(50) {
		s.b.WriteString("/>")
		return
	}
	s.b.WriteString(">")
	s.textOf(n)
	// Elements of different kinds may come in any order.
	var tags []string
	queues := map[string][]*xnode{}
	for _, k := range n.kids {
		tags = append(tags, k.tag)
		queues[k.tag] = append(queues[k.tag], k)
	}
	if s.chance(60) {
		s.r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	}
	for _, tag := range tags {
		s.space(false)
		s.element(queues[tag][0])
		queues[tag] = queues[tag][1:]
	}
	if len(n.kids) > 0 {
		s.space(false)
	}
	s.b.WriteString("</" + n.tag + s.pick("", "", " ", "\n") + ">")
}

// textOf writes the text of an element.
func (s *xmlStyle) textOf(n *xnode) {
	if n.text == "" {
		return
	}
	rs := []rune(n.text)
	for len(rs) > 0 {
		k := len(rs)
		if s.chance(30) {
			k = 1 + s.r.Intn(len(rs))
		}
		part := string(rs[:k])
		rs = rs[k:]
		switch {
		case s.chance(20) && !strings.Contains(part, "]]>") && !strings.ContainsAny(part, "\r"):
			s.b.WriteString("<![CDATA[" + part + "]]>")
		default:
			s.chars(part)
		}
		if s.chance(15) {
			s.b.WriteString(s.pick("<!-- in between -->", "<![CDATA[]]>", "<?x y?>"))
		}
	}
}

// chars writes text, some of it as references.
func (s *xmlStyle) chars(text string) {
	for _, c := range text {
		switch {
		case s.chance(4):
			fmt.Fprintf(&s.b, s.pick("&#%d;", "&#x%x;", "&#x%X;"), c)
		case c == '\'':
			s.b.WriteString(s.pick("&apos;", "&#39;"))
		case c == '"':
			s.b.WriteString(s.pick("&quot;", "&#34;"))
		default:
			_ = xml.EscapeText(&s.b, []byte(string(c)))
		}
	}
}
