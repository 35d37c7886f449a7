package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// PkgCase is a set of test names and variants with package metadata.
type PkgCase struct {
	Tests []string  `json:"tests"`
	Vars  []Variant `json:"variants"`
	Style int       `json:"style,omitempty"` // how the configuration is spelled in XML
}

func init() {
	pbt.Register("P16",
		"package configurations with any subset of the fields, texts with XML specials, several and partial placeholders, spaces, line ends and other scripts, and dependencies, for suites of one to five tests whose names contain each other, placeholders and XML specials; every package.xml is parsed by a strict XML parser and compared with the expected fields, every CMakeLists.txt parsed as CMake commands; non-trivial: at least two tests, and a configured field with a placeholder",
		genP16, checkP16)
}

func genP16(t *rapid.T) PkgCase {
	var c PkgCase
	used := map[string]bool{}
	for i := model.Len(t, "numTests", 1, 5, 30); i > 0; i-- {
		n := model.Pick(t, "test", "test", "test0", "test01", "t", "Case", "my_test", "test-x", "a.b", "${NAME}", "a&b", "<x>", "two words", "é", "NAME", "x${NAME}y", "email", "quo\"te", "it's")
		if used[n] {
			n = fmt.Sprintf("test%d", i)
		}
		if !used[n] {
			used[n] = true
			c.Tests = append(c.Tests, n)
		}
	}
	variants := [][]string{{"animate"}, {"ros"}, {"animate", "ros"}}
	for _, name := range model.From(t, "variants", variants) {
		v := Variant{Name: name}
		if model.Chance(t, "catkin", 90) {
			p := genWildPackage(t)
			v.Catkin = &p
		}
		if model.Chance(t, "override", 30) {
			v.Overrides = []Override{{Ch: "c", Type: "T"}}
		}
		c.Vars = append(c.Vars, v)
	}
	c.Style = genStyle(t)
	return c
}

func genText(t *rapid.T, label string) string {
	if model.Chance(t, label+"Fixed", 40) {
		return model.From(t, label, packageText)
	}
	parts := []string{"${NAME}", "${NAME}", "a", "b c", "&", "<", ">", "\"", "'", "]]>", "&amp;", "${", "}", "$", "{NAME}", "NAME", "\n", "\t", " ", "  ", "é", "日", "-", "_", ".", "<!--", "x@y.z", "${NAME", "\r", "0", "%s", "\\", "{{.Name}}"}
	var b strings.Builder
	for i := model.Len(t, label+"Parts", 0, 6, 60); i > 0; i-- {
		b.WriteString(model.From(t, label+"Part", parts))
	}
	return b.String()
}

func genWildPackage(t *rapid.T) Package {
	if model.Chance(t, "plainPackage", 15) {
		return genPackage(t)
	}
	if model.Chance(t, "bare", 7) {
		return Package{Bare: true}
	}
	opt := func(label string) *string {
		if model.Chance(t, label+"Given", 55) {
			s := genText(t, label)
			return &s
		}
		return nil
	}
	p := Package{Name: opt("name"), Version: opt("version"), Description: opt("description"), License: opt("license")}
	if p.Name != nil && model.Chance(t, "simpleName", 60) {
		s := model.Pick(t, "simpleNameText", "${NAME}", "pkg_${NAME}", "${NAME}_${NAME}", "same", "a-${NAME}.x", "${name}", "test0")
		p.Name = &s
	}
	if model.Chance(t, "format", 30) {
		s := model.Pick(t, "formatNumber", "1", "2", "3", "0")
		p.Format = &s
	}
	if model.Chance(t, "maintainer", 60) {
		p.Maintainer = &Person{Name: genText(t, "maintainerName"), Email: genText(t, "email")}
	}
	dep := func(label string) string {
		if model.Chance(t, label+"Odd", 10) {
			return genText(t, label)
		}
		return model.Pick(t, label+"Name", "sensor_msgs", "geometry_msgs", "my_pkg", "roscpp", "std_msgs", "zz", "aa", "catkin", "cmake", "a-b")
	}
	for i := model.Range(t, "buildtools", 0, 3); i > 0; i-- {
		p.Buildtool = append(p.Buildtool, dep("buildtool"))
	}
	for i := model.Len(t, "depends", 0, 5, 30); i > 0; i-- {
		p.Depends = append(p.Depends, dep("depend"))
	}
	return p
}

// elem is an XML element with no elements in it, or a whole document's root.
type elem struct {
	Tag   string
	Attrs []string
	Text  string
}

// parseXML parses a document as a root and its children.
func parseXML(bs []byte) (root elem, kids []elem, err error) {
	dec := xml.NewDecoder(bytes.NewReader(bs))
	depth := 0
	roots := 0
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return root, kids, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			e := elem{Tag: x.Name.Local}
			if x.Name.Space != "" {
				e.Tag = x.Name.Space + ":" + e.Tag
			}
			for _, a := range x.Attr {
				e.Attrs = append(e.Attrs, a.Name.Local+"="+a.Value)
			}
			sort.Strings(e.Attrs)
			switch depth {
			case 0:
				root = e
				roots++
			case 1:
				kids = append(kids, e)
			default:
				return root, kids, fmt.Errorf("element %s is nested in %s", e.Tag, kids[len(kids)-1].Tag)
			}
			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			switch {
			case depth == 2:
				kids[len(kids)-1].Text += string(x)
			case strings.TrimSpace(string(x)) != "":
				return root, kids, fmt.Errorf("text %q outside fields", x)
			}
		}
	}
	if roots != 1 {
		return root, kids, fmt.Errorf("%d root elements", roots)
	}
	return root, kids, nil
}

// expected gives the fields that a test's package must have.
func (p Package) expected(test string) []elem {
	exp := func(v *string, def string, expand bool) string {
		s := def
		if v != nil && *v != "" {
			s = *v
		}
		if expand {
			s = strings.Join(strings.Split(s, "${NAME}"), test)
		}
		return s
	}
	m := Person{}
	if p.Maintainer != nil {
		m = *p.Maintainer
	}
	es := []elem{
		{Tag: "name", Text: exp(p.Name, "${NAME}", true)},
		{Tag: "version", Text: exp(p.Version, "0.1.0", false)},
		{Tag: "description", Text: exp(p.Description, "Package for ${NAME}", true)},
		{Tag: "maintainer", Attrs: []string{"email=" + exp(&m.Email, "email@example.com", true)}, Text: exp(&m.Name, "${NAME} Maintainers", true)},
		{Tag: "license", Text: exp(p.License, "Proprietary", true)},
	}
	for _, d := range p.Buildtool {
		es = append(es, elem{Tag: "buildtool_depend", Text: d})
	}
	for _, d := range p.Depends {
		es = append(es, elem{Tag: "depend", Text: d})
	}
	return es
}

// cmakeCommands parses the commands of a CMake file that has no quoted or bracketed arguments.
func cmakeCommands(text string) map[string][][]string {
	res := map[string][][]string{}
	text = regexp.MustCompile(`(?m)#.*$`).ReplaceAllString(text, "")
	for _, m := range regexp.MustCompile(`(?s)([A-Za-z_]\w*)\s*\(([^()]*)\)`).FindAllStringSubmatch(text, -1) {
		name := strings.ToLower(m[1])
		var args []string
		for _, a := range strings.Fields(m[2]) {
			args = append(args, strings.Trim(a, "\""))
		}
		res[name] = append(res[name], args)
	}
	return res
}

var cmakeSimple = regexp.MustCompile(`^[A-Za-z0-9_.+-]+$`)

func checkP16(c PkgCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	suite := model.Suite{}
	for i, k := range c.Tests {
		v := fmt.Sprint(i)
		suite[k] = model.Chain(k, []model.Event{{Ch: "c", Kind: "out", Val: &v}})
	}
	stms := mustOK(MakeStms(suite.Bytes()), "making state machines").Stdout
	cfg := Config{Variants: c.Vars, Style: c.Style}
	for _, v := range c.Vars {
		mustWrite(filepath.Join(dir, "in", v.Name, "src/convert/convert.cpp"), nil)
	}
	mustOK(GenFrom(dir, cfg.XML(), stms), "generating tests")

	for _, v := range c.Vars {
		if v.Catkin == nil {
			continue
		}
		for _, k := range c.Tests {
			sub := filepath.Join(v.Name, "src", k)
			bs := mustRead(filepath.Join(dir, "out", sub, "package.xml"))
			root, kids, err := parseXML(bs)
			if err != nil {
				return fmt.Errorf("%s/package.xml isn't a well-formed package: %w:\n%s", sub, err, clip(string(bs), 2000))
			}
			if a, b := show(root), show(elem{Tag: "package", Attrs: []string{"format=2"}}); a != b {
				return fmt.Errorf("%s/package.xml: root element is %s, want %s", sub, a, b)
			}
			want := v.Catkin.expected(k)
			byTag := func(es []elem) string {
				es = append([]elem{}, es...)
				sort.SliceStable(es, func(i, j int) bool { return es[i].Tag < es[j].Tag })
				var b strings.Builder
				for _, e := range es {
					fmt.Fprintf(&b, "%s %q %q\n", e.Tag, e.Attrs, e.Text)
				}
				return b.String()
			}
			if a, b := byTag(kids), byTag(want); a != b {
				return fmt.Errorf("%s/package.xml: fields differ: %s\n%s", sub, textDiff(a, b), clip(string(bs), 2000))
			}
			rec.Count("package.xml files", 1)

			// The CMake side, as far as CMake can express it.
			simple := cmakeSimple.MatchString(want[0].Text)
			deps := map[string]bool{"roscpp": true, "std_msgs": true}
			for _, d := range v.Catkin.Depends {
				simple = simple && cmakeSimple.MatchString(d)
				deps[d] = true
			}
			if !simple {
				rec.Count("CMakeLists.txt files with names beyond CMake's", 1)
				continue
			}
			text := string(mustRead(filepath.Join(dir, "out", sub, "CMakeLists.txt")))
			cmds := cmakeCommands(text)
			if p := cmds["project"]; len(p) != 1 || len(p[0]) == 0 || p[0][0] != want[0].Text {
				return fmt.Errorf("%s/CMakeLists.txt: project is %q, want %q", sub, p, want[0].Text)
			}
			found := map[string]bool{}
			for _, args := range cmds["find_package"] {
				if len(args) > 0 && args[0] == "catkin" {
					in := false
					for _, a := range args[1:] {
						if in {
							found[a] = true
						}
						in = in || a == "COMPONENTS"
					}
				}
			}
			if a, b := keysOf(found), keysOf(deps); show(a) != show(b) {
				return fmt.Errorf("%s/CMakeLists.txt: catkin components are %q, want %q", sub, a, b)
			}
			exported := map[string]bool{}
			for _, args := range cmds["catkin_package"] {
				in := false
				for _, a := range args {
					if in {
						exported[a] = true
					}
					in = in || a == "CATKIN_DEPENDS"
				}
			}
			if a, b := keysOf(exported), keysOf(deps); show(a) != show(b) {
				return fmt.Errorf("%s/CMakeLists.txt: catkin dependencies are %q, want %q", sub, a, b)
			}
			rec.Count("CMakeLists.txt files", 1)
		}
		x := v.Catkin.XML()
		rec.NonTrivialIf(len(c.Tests) > 1 && strings.Contains(x, "${NAME}"))
		rec.LabelIf(strings.Contains(x, "&"), "XML specials")
		rec.LabelIf(len(v.Catkin.Depends) > 1, "several dependencies")
		rec.LabelIf(c.Style != 0, "another spelling of the XML")
		rec.LabelIf(v.Catkin.Bare, "no package configured")
	}
	return nil
}
