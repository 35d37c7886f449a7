package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
)

// Config is a generator configuration.
type Config struct {
	Directory string    `json:"directory,omitempty"`
	Variants  []Variant `json:"variants"`
	Style     int       `json:"style,omitempty"` // how it is spelled in XML
}

// Variant is the configuration of one C++ variant.
type Variant struct {
	Name      string     `json:"name"`
	Makefile  bool       `json:"makefile,omitempty"`
	Catkin    *Package   `json:"catkin,omitempty"`
	Includes  []Include  `json:"includes,omitempty"`
	Overrides []Override `json:"overrides,omitempty"`
}

// Include is a user include.
type Include struct {
	Src    string `json:"src"`
	System bool   `json:"system,omitempty"`
}

// Override is a user-configured channel type.
type Override struct {
	Ch   string `json:"ch"`
	Type string `json:"type"`
}

// Person is a package maintainer.
type Person struct {
	Name  string `json:"name"`
	Email string `json:"email"`
}

// Package is Catkin metadata; nil fields are left out of the configuration.
type Package struct {
	Format      *string  `json:"format,omitempty"`
	Name        *string  `json:"name,omitempty"`
	Version     *string  `json:"version,omitempty"`
	Description *string  `json:"description,omitempty"`
	Maintainer  *Person  `json:"maintainer,omitempty"`
	License     *string  `json:"license,omitempty"`
	Buildtool   []string `json:"buildtoolDepends,omitempty"`
	Depends     []string `json:"depends,omitempty"`
	Bare        bool     `json:"bare,omitempty"` // whether to leave out the whole element
}

func esc(s string) string {
	var b strings.Builder
	_ = xml.EscapeText(&b, []byte(s))
	return b.String()
}

// XML renders the configuration.
func (c Config) XML() string {
	if c.Style != 0 {
		return styled(c.tree(), c.Style)
	}
	var b strings.Builder
	b.WriteString("<rtcg-gen>\n")
	if c.Directory != "" {
		fmt.Fprintf(&b, "  <directory>%s</directory>\n", esc(c.Directory))
	}
	for _, v := range c.Variants {
		fmt.Fprintf(&b, "  <cpp variant=\"%s\">\n", esc(v.Name))
		if v.Makefile {
			b.WriteString("    <makefile/>\n")
		}
		if v.Catkin != nil {
			b.WriteString("    <catkin>" + v.Catkin.XML() + "</catkin>\n")
		}
		for _, o := range v.Overrides {
			fmt.Fprintf(&b, "    <channel name=\"%s\" type=\"%s\"/>\n", esc(o.Ch), esc(o.Type))
		}
		for _, i := range v.Includes {
			sys := ""
			if i.System {
				sys = " system=\"true\""
			}
			fmt.Fprintf(&b, "    <include src=\"%s\"%s/>\n", esc(i.Src), sys)
		}
		b.WriteString("  </cpp>\n")
	}
	b.WriteString("</rtcg-gen>\n")
	return b.String()
}

// XML renders the package metadata.
func (p Package) XML() string {
	var b strings.Builder
	if p.Bare {
		return ""
	}
	b.WriteString("<package")
	if p.Format != nil {
		fmt.Fprintf(&b, " format=\"%s\"", esc(*p.Format))
	}
	b.WriteString(">")
	elem := func(name string, v *string) {
		if v != nil {
			fmt.Fprintf(&b, "<%s>%s</%s>", name, esc(*v), name)
		}
	}
	elem("name", p.Name)
	elem("version", p.Version)
	elem("description", p.Description)
	if p.Maintainer != nil {
		fmt.Fprintf(&b, "<maintainer email=\"%s\">%s</maintainer>", esc(p.Maintainer.Email), esc(p.Maintainer.Name))
	}
	elem("license", p.License)
	for i := range p.Buildtool {
		elem("buildtool_depend", &p.Buildtool[i])
	}
	for i := range p.Depends {
		elem("depend", &p.Depends[i])
	}
	b.WriteString("</package>")
	return b.String()
}

// Animate is a plain animate configuration.
func Animate() Config { return Config{Variants: []Variant{{Name: "animate"}}} }

// base is the built-in C++ type for a RoboStar type.
func base(typ string) string {
	switch typ {
	case "nat":
		return "unsigned int"
	case "int":
		return "int"
	case "real":
		return "double"
	case "enum":
		return "std::string"
	default:
		return "rtcg::Empty"
	}
}

// Conv is a user conversion that the harness supplies for a channel.
//
// Its conversions aren't identities, so that using the wrong one shows.
type Conv struct {
	Ch   string `json:"ch"`
	Typ  string `json:"typ"`           // RoboStar type of the channel
	Salt int    `json:"salt"`          // distinguishes conversions of different channels
	Sys  bool   `json:"sys,omitempty"` // whether the type is one of a system header
}

// GenConvs draws conversions for some of the channels with the given types.
func GenConvs(t *rapid.T, types map[string]string, pct int) []Conv {
	var cs []Conv
	for i, ch := range keysOf(types) {
		if model.Chance(t, "override", pct) {
			cs = append(cs, Conv{Ch: ch, Typ: types[ch], Salt: 3 + 2*i})
		}
	}
	return cs
}

// ValType is the C++ type of values on the channel.
func (c Conv) ValType(ros bool) string {
	if ros {
		switch c.Typ {
		case "nat":
			return "verif_msgs::Natural"
		case "int":
			return "verif_msgs::Whole"
		case "enum":
			return "verif_msgs::Text"
		default:
			return "verif_msgs::Whole"
		}
	}
	if c.Sys {
		return "std::complex<double>"
	}
	switch c.Typ {
	case "nat":
		return "unsigned long"
	case "int":
		return "long long"
	case "enum":
		return "std::string"
	default:
		return "long"
	}
}

// Payload is what val becomes on the channel, as text.
func (c Conv) Payload(val string) string {
	switch c.Typ {
	case "nat", "int":
		n, ok := model.ParseInt(val)
		if !ok {
			return "?"
		}
		x := n.Int64()
		return fmt.Sprint(x*int64(c.Salt) + 7)
	case "enum":
		return fmt.Sprintf("<%d|%s>", c.Salt, val)
	default:
		return fmt.Sprint(1000 + c.Salt)
	}
}

// Code is the C++ source of the conversion's two functions.
func (c Conv) Code(ros bool) string {
	ch := model.UpcaseFirst(c.Ch)
	b, vt := base(c.Typ), c.ValType(ros)
	in, out := "msg", "r"
	if ros {
		in, out = "msg->data", "r.data"
	}
	var from, to string
	switch {
	case c.Sys && !ros:
		from = fmt.Sprintf("return static_cast<%s>(msg.real());", b)
		to = "return std::complex<double>(static_cast<double>(value), 0);"
		return fmt.Sprintf("%s from%s(const %sMsg msg) { %s }\n%sVal to%s(const %s value) { %s }\n", b, ch, ch, from, ch, ch, b, to)
	}
	switch c.Typ {
	case "nat", "int":
		from = fmt.Sprintf("return static_cast<%s>((static_cast<long long>(%s) - 7) / %d);", b, in, c.Salt)
		to = fmt.Sprintf("%s r; %s = static_cast<long long>(value) * %d + 7; return r;", vt, out, c.Salt)
	case "enum":
		pre := fmt.Sprintf("<%d|", c.Salt)
		from = fmt.Sprintf("std::string s = %s; return s.substr(%d, s.size() - %d);", in, len(pre), len(pre)+1)
		to = fmt.Sprintf("%s r; %s = std::string(\"%s\") + value + \">\"; return r;", vt, out, pre)
	default:
		from = fmt.Sprintf("(void)%s; return rtcg::Empty{};", in)
		to = fmt.Sprintf("(void)value; %s r; %s = %d; return r;", vt, out, 1000+c.Salt)
	}
	return fmt.Sprintf("%s from%s(const %sMsg msg) { %s }\n%sVal to%s(const %s value) { %s }\n", b, ch, ch, from, ch, ch, b, to)
}

// ConvertCpp is the user's convert.cpp for some conversions.
func ConvertCpp(cs []Conv, ros bool) string {
	var b strings.Builder
	b.WriteString("#include <string>\n#include \"convert.h\"\n")
	for _, c := range cs {
		b.WriteString(c.Code(ros))
	}
	return b.String()
}

// PlainConvertCpp is ConvertCpp without using the generated header, in the style of the examples.
func PlainConvertCpp(cs []Conv, ros bool) string {
	var b strings.Builder
	b.WriteString("#include <string>\n#include \"rtcg.h\"\n")
	for _, c := range cs {
		vt := c.ValType(ros)
		msg := vt
		if ros {
			fmt.Fprintf(&b, "#include \"%s.h\"\n", strings.ReplaceAll(vt, "::", "/"))
			msg += "::ConstPtr&"
		} else if c.Sys {
			b.WriteString("#include <complex>\n")
		}
		ch := model.UpcaseFirst(c.Ch)
		b.WriteString(strings.NewReplacer(ch+"Msg msg", msg+" msg", ch+"Val to", vt+" to").Replace(c.Code(ros)))
	}
	return b.String()
}

// WithConvs adds conversions to a variant.
func (v Variant) WithConvs(cs []Conv) Variant {
	ros := strings.EqualFold(v.Name, "ros")
	seen := map[string]bool{}
	for _, c := range cs {
		v.Overrides = append(v.Overrides, Override{Ch: c.Ch, Type: c.ValType(ros)})
		inc, sys := strings.ReplaceAll(c.ValType(ros), "::", "/")+".h", c.Sys
		if !ros {
			inc = "complex"
		}
		if (ros || sys) && !seen[inc] {
			seen[inc] = true
			v.Includes = append(v.Includes, Include{Src: inc, System: sys})
		}
	}
	return v
}
