From d725baa4fa58ffeb925e827442e181143d39a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 01/28] fix: make generated C++ projects self-contained without
 type overrides

convert.h is always generated and always included by main.cpp, but its
directory (and the Makefile include path to it) only existed if some channel
had a type override; generation failed outright otherwise.
---
 internal/gen/cpp/copy.go                            | 2 ++
 internal/gen/cpp/cpp.go                             | 6 ++++++
 internal/gen/makefile/embed/templates/Makefile.tmpl | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index a042401..bea3365 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -20,6 +20,8 @@ const (
 	convertDir   = "convert"       // convertDir is the subdirectory where we store the conversion code.
 	preludeDir   = "rtcg"          // preludeDir is the subdirectory where we store the prelude.
 	preludeMount = "embed/prelude" // preludeMount is the directory in prelude where the prelude is.
+
+	convertDirPerms = 0o754 // convertDirPerms is the permission mask for the conversion code directory.
 )
 
 func (g *Generator) copyPrelude() error {
diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 200c788..6188714 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,6 +3,7 @@ package cpp
 
 import (
 	"fmt"
+	"os"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -95,6 +96,11 @@ func (o *OnSuite) Generate() error {
 }
 
 func (o *OnSuite) generateCommon() error {
+	// We emit convert.h even when there are no type overrides, so its directory must always exist.
+	if err := os.MkdirAll(o.parent.srcDirSet.OutputPath(convertDir), convertDirPerms); err != nil {
+		return fmt.Errorf("couldn't make convert directory: %w", err)
+	}
+
 	if err := o.copyConvertFile(); err != nil {
 		return err
 	}
diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..3d26c5c 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,6 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
+{{- define "iconvert" }} -Isrc/convert{{- end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
-- 
2.43.0


From 19d91ef2b775bd5d9b28e7987330f35948e8b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 02/28] fix: don't refer to convert.cpp in CMakeLists.txt when
 there isn't one

convert.cpp only exists in the generated Catkin workspace if some channel has
a type override; without one, every generated package failed to configure.
---
 internal/gen/catkin/catkin.go                 | 21 ++++++++++++++++---
 .../embed/templates/CMakeLists.txt.tmpl       | 10 ++++++++-
 internal/gen/gen.go                           |  2 +-
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/internal/gen/catkin/catkin.go b/internal/gen/catkin/catkin.go
index 56098b3..7595edd 100644
--- a/internal/gen/catkin/catkin.go
+++ b/internal/gen/catkin/catkin.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
+	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/subgen"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/templating"
@@ -17,19 +18,22 @@ import (
 // Generator is a Catkin auxiliary file generator.
 type Generator struct {
 	config    cfg.Config       // config is the user-supplied configuration.
+	cppConfig cpp.Config       // cppConfig is the surrounding C++ configuration.
 	srcDirSet gencommon.DirSet // srcBaseDir is the source directory set for this Catkin workspace.
 
 	cmakeGen *templating.Generator // cmakeGen is the generator for CMakeLists.txt.
 }
 
 // New creates a new Catkin generator with the given configuration.
-func New(config *cfg.Config, dirs gencommon.DirSet) (*Generator, error) {
+//
+// The C++ configuration must have a Catkin configuration inside it.
+func New(config *cpp.Config, dirs gencommon.DirSet) (*Generator, error) {
 	tg, err := NewTemplatedGenerator()
 	if err != nil {
 		return nil, err
 	}
 
-	gen := Generator{config: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
+	gen := Generator{config: *config.Catkin, cppConfig: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
 
 	if gen.config.Package == nil {
 		var pkg cfg.Package
@@ -49,6 +53,7 @@ func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 	return &OnSuite{
 		parent: g,
 		suite:  suite,
+		cctx:   g.cppConfig.Process(suite.Types),
 	}
 }
 
@@ -56,6 +61,7 @@ func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 type OnSuite struct {
 	parent *Generator
 	suite  *stm.Suite
+	cctx   cpp.Context
 }
 
 func (o *OnSuite) Parent() subgen.Subgenerator {
@@ -88,13 +94,22 @@ func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string) error {
 		return err
 	}
 
-	if err := o.parent.cmakeGen.Generate(dirs.Output, pkg); err != nil {
+	ctx := Context{Package: pkg, HasConversion: o.cctx.HasConversion}
+
+	if err := o.parent.cmakeGen.Generate(dirs.Output, ctx); err != nil {
 		return fmt.Errorf("generating cmake: %w", err)
 	}
 
 	return nil
 }
 
+// Context is the context passed into the CMakeLists.txt template.
+type Context struct {
+	cfg.Package
+
+	HasConversion bool // HasConversion is true if there is a convert.cpp file.
+}
+
 func generatePackageXML(dir string, pkg cfg.Package) error {
 	file, err := os.Create(filepath.Join(dir, "package.xml"))
 	if err != nil {
diff --git a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
index 49f8b2f..2e99447 100644
--- a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
+++ b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
@@ -1,7 +1,7 @@
 {{- /*
 CMakeLists.txt.tmpl is the template for generating top-level CMakeLists for each package.
 
-It takes the package.xml as dot.
+It takes the package.xml, and whether there is a convert.cpp, as dot.
 */ -}}
 cmake_minimum_required(VERSION 3.0.2)
 project({{ .Name }})
@@ -31,17 +31,21 @@ include_directories(
     ../rtcg/
 )
 
+{{ if .HasConversion -}}
 add_library(convert
     ../convert/convert.cpp
 )
 
+{{ end -}}
 add_library(rtcg
     ../rtcg/rtcg.cpp
 )
 
 add_executable(${PROJECT_NAME}_node
     src/main.cpp
+{{- if .HasConversion }}
     ../convert/convert.cpp
+{{- end }}
     ../rtcg/rtcg.cpp
 )
 
@@ -50,12 +54,16 @@ set_target_properties(${PROJECT_NAME}_node PROPERTIES OUTPUT_NAME node PREFIX ""
 add_dependencies(${PROJECT_NAME}_node
     ${${PROJECT_NAME}_EXPORTED_TARGETS}
     ${catkin_EXPORTED_TARGETS}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
 
 target_link_libraries(${PROJECT_NAME}_node
     ${catkin_LIBRARIES}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
\ No newline at end of file
diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..b6900ae 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -79,7 +79,7 @@ func initCppCatkin(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgener
 		return nil, nil
 	}
 
-	gen, err := catkin.New(config.Catkin, dirs)
+	gen, err := catkin.New(config, dirs)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't init Catkin generator: %w", err)
 	}
-- 
2.43.0


From 268afd80fec1e7c16d94f81084e6457fcaca5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 03/28] fix: allow state machines to contain events with no
 value

Traces such as 'foo.in, bar.out' are accepted by rtcg-read-traces, but
rtcg-make-stms could not write the resulting machine as JSON.
---
 internal/stm/transition/transition.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/stm/transition/transition.go b/internal/stm/transition/transition.go
index 1892077..da41064 100644
--- a/internal/stm/transition/transition.go
+++ b/internal/stm/transition/transition.go
@@ -2,6 +2,7 @@
 package transition
 
 import (
+	"encoding/json"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
@@ -20,6 +21,25 @@ func (t Transition) String() string {
 	return fmt.Sprintf("-[%s]-> %s", &t.Value, t.Next)
 }
 
+// MarshalJSON marshals a Transition, leaving out the value if its event doesn't carry one.
+func (t Transition) MarshalJSON() ([]byte, error) {
+	raw := struct {
+		Value *value.Value    `json:"value,omitempty"`
+		Next  testlang.NodeID `json:"next,omitempty"`
+	}{Value: nil, Next: t.Next}
+
+	if t.Value.IsPresent() {
+		raw.Value = &t.Value
+	}
+
+	bs, err := json.Marshal(raw)
+	if err != nil {
+		return nil, fmt.Errorf("couldn't marshal transition: %w", err)
+	}
+
+	return bs, nil
+}
+
 // Flat is a Transition with its channel attached.
 type Flat struct {
 	Transition
-- 
2.43.0


From efa4c630d386d417f5c902721c33e89973378582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 04/28] fix: escape enumeration values in generated C++ string
 literals

---
 .../templates/base/out_callback.cpp.tmpl      |  2 +-
 .../embed/templates/base/state_entry.cpp.tmpl |  4 ++--
 internal/gen/cpp/func.go                      | 23 ++++++++++++++++++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 491ed23..23c225a 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -15,7 +15,7 @@ Base indent is set at 2, as we are inside a top-level function.
     {{ if ne $i 0 }}else {{ end }}if (
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
-    value.compare("{{ $t.Value.StringValue }}") == 0
+    value.compare({{ cppValue $t.Value }}) == 0
 {{-     else -}}
     value == {{ $t.Value.StringValue }}
 {{-     end -}}
diff --git a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
index 69683d9..8e80ca5 100644
--- a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
@@ -22,7 +22,7 @@ Base indent is set at 2, as we are inside a top-level function.
 
 {{-   with .In }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' sends {{ .Value.StringValue }} to SUT on {{ .Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' sends {{ cppEscape .Value.StringValue }} to SUT on {{ .Channel.Name }}; " <<
     "if accepted, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{      template "input" . -}}
 {{-   end }}
@@ -35,7 +35,7 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-  range $outSet := .TransitionSets }}
 {{-    range index .Transitions }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' can receive {{ .Value.StringValue }} from SUT on {{ $outSet.Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' can receive {{ cppEscape .Value.StringValue }} from SUT on {{ $outSet.Channel.Name }}; " <<
     "if received, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{-    end }}
 {{-  end }}
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index 80a58a6..ceffbcd 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -20,6 +20,7 @@ func Funcs() template.FuncMap {
 		"cppConvertFrom":      ConvertFrom,
 		"cppConvertTo":        ConvertTo,
 		"cppEnumField":        EnumField,
+		"cppEscape":           Escape,
 		"cppOutcomeEnum":      OutcomeEnum,
 		"cppStateEntry":       StateEntry,
 		"cppStateEnum":        StateEnum,
@@ -107,12 +108,32 @@ func Value(val value.Value) string {
 	typ := val.Type()
 
 	if typ.IsEnum() {
-		return fmt.Sprintf("\"%s\"", val.StringValue())
+		return fmt.Sprintf("\"%s\"", Escape(val.StringValue()))
 	}
 
 	return val.StringValue()
 }
 
+// Escape escapes str such that it can appear inside a C++ string literal.
+func Escape(str string) string {
+	var build strings.Builder
+
+	for i := 0; i < len(str); i++ {
+		switch char := str[i]; {
+		case char == '"' || char == '\\' || char == '?':
+			// We escape '?' as otherwise it may form part of a trigraph.
+			_ = build.WriteByte('\\')
+			_ = build.WriteByte(char)
+		case char < ' ' || char == '\x7f':
+			_, _ = fmt.Fprintf(&build, "\\%03o", char)
+		default:
+			_ = build.WriteByte(char)
+		}
+	}
+
+	return build.String()
+}
+
 func rtcgEnumName(name string, variant any) string {
 	return "rtcg::" + localEnumName(name, variant)
 }
-- 
2.43.0


From 18e70c162b008d7469d2d2c6bf3cbfbc66055d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 05/28] fix: generate compilable C++ for events with no value

---
 internal/gen/cpp/embed/prelude/rtcg.cpp             | 11 +++++++++--
 internal/gen/cpp/embed/prelude/rtcg.h               | 12 ++++++++++++
 .../cpp/embed/templates/animate/main_body.cpp.tmpl  |  2 ++
 .../templates/base/convert/convert_base.h.tmpl      |  2 ++
 .../cpp/embed/templates/base/out_callback.cpp.tmpl  |  2 ++
 .../cpp/embed/templates/ros/convert/convert.h.tmpl  |  8 ++++++++
 internal/gen/cpp/embed/templates/ros/main.cpp.tmpl  |  1 +
 internal/gen/cpp/func.go                            | 13 ++++++++++---
 8 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/internal/gen/cpp/embed/prelude/rtcg.cpp b/internal/gen/cpp/embed/prelude/rtcg.cpp
index 2516913..f8b3dc6 100644
--- a/internal/gen/cpp/embed/prelude/rtcg.cpp
+++ b/internal/gen/cpp/embed/prelude/rtcg.cpp
@@ -6,10 +6,17 @@
 // SPDX-License-Identifier: MIT
 //
 
-#include <ostream>
-
 #include "rtcg.h"
 
+//
+// Empty
+//
+
+std::ostream& operator<<(std::ostream& stm, rtcg::Empty)
+{
+  return stm << "()";
+}
+
 //
 // Outcome
 //
diff --git a/internal/gen/cpp/embed/prelude/rtcg.h b/internal/gen/cpp/embed/prelude/rtcg.h
index 4436425..b1a26ac 100644
--- a/internal/gen/cpp/embed/prelude/rtcg.h
+++ b/internal/gen/cpp/embed/prelude/rtcg.h
@@ -9,8 +9,17 @@
 #ifndef RTCG_H_DEFINED
 #define RTCG_H_DEFINED
 
+#include <ostream>
+
 namespace rtcg
 {
+  //
+  // Empty
+  //
+
+  // The (only) value carried by an event that has no value.
+  struct Empty {};
+
   //
   // Outcome
   //
@@ -71,6 +80,9 @@ namespace rtcg
   };
 }
 
+// Overloads stream output for Empty.
+std::ostream& operator<<(std::ostream& stm, rtcg::Empty e);
+
 // Overloads stream output for Status (using rtcg::status::explain).
 std::ostream& operator<<(std::ostream& stm, rtcg::Status o);
 
diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 8619c66..79b889c 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -44,7 +44,9 @@
     else if (choice == "{{ $cn }}")
     {
       {{ cppType $ctype.Base }} in;
+{{- if not $ctype.Base.IsEmpty }}
       std::cin >> in;
+{{- end }}
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
     }
diff --git a/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl b/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
index 5fd8563..73e1ed5 100644
--- a/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
+++ b/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
@@ -11,6 +11,8 @@ Base indent is set at 0.
 
 #ifndef CONVERT_H_DEFINED
 #define CONVERT_H_DEFINED
+
+#include "rtcg.h"
 {{/* Bring any user-defined includes into scope, as they'll likely define override types: */ -}}
 {{- range .Includes }}
 #include {{ if .IsSystem -}} < {{- else -}} " {{- end -}} {{ .Src }} {{- if .IsSystem -}} > {{- else -}} " {{- end }}
diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 23c225a..18aaa51 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -16,6 +16,8 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
     value.compare({{ cppValue $t.Value }}) == 0
+{{-     else if $ty.IsEmpty -}}
+    true
 {{-     else -}}
     value == {{ $t.Value.StringValue }}
 {{-     end -}}
diff --git a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
index 23605db..7991716 100644
--- a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
@@ -8,6 +8,8 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- define "convert_from" -}}
 {{-   if .IsEnum }}
   return std::string(msg->data.c_str());
+{{-   else if .IsEmpty }}
+  return rtcg::Empty{};  // No value to convert
 {{-   else }}
   return msg->data;  // No conversion required
 {{-   end -}}
@@ -23,6 +25,8 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
   std_msgs::String msg;
   msg.data = value.c_str();
   return msg;
+{{-   else if .IsEmpty }}
+  return std_msgs::Empty{};  // No value to convert
 {{-   else }}
   return value;  // No conversion required
 {{-   end -}}
@@ -31,7 +35,11 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- /* Calculates the ROS equivalent of a RoboStar type. */ -}}
 {{- define "type" -}}
 {{- /* TODO: add more types here */ -}}
+{{-   if .IsEmpty -}}
+  std_msgs::Empty
+{{-   else -}}
   std_msgs::String
+{{-   end -}}
 {{- end -}}
 
 {{- /* Calculates the message type of a channel. */ -}}
diff --git a/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl b/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
index 9ac72e7..30777a3 100644
--- a/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
@@ -8,6 +8,7 @@ ROS primitives and concepts, then delegates to that template.
 {{- define "system_includes" }}
 #include "ros/ros.h"
 #include "std_msgs/Bool.h"
+#include "std_msgs/Empty.h"
 #include "std_msgs/String.h"
 {{- end -}}
 
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index ceffbcd..029efcd 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -89,6 +89,8 @@ func EnumField(variant any) string {
 // StdType gets the standard C++ type for the given RoboStar type.
 func StdType(rsType rstype.RsType) string {
 	switch {
+	case rsType.IsEmpty():
+		return emptyTypeName
 	case rsType.IsEnum():
 		return "std::string"
 	case rsType.IsNat():
@@ -107,6 +109,10 @@ func Value(val value.Value) string {
 	// TODO: do this without type introspection.
 	typ := val.Type()
 
+	if typ.IsEmpty() {
+		return emptyTypeName + "{}"
+	}
+
 	if typ.IsEnum() {
 		return fmt.Sprintf("\"%s\"", Escape(val.StringValue()))
 	}
@@ -143,7 +149,8 @@ func localEnumName(name string, variant any) string {
 }
 
 const (
-	stateEnumName   = "State"   // stateEnumName is the name in the C++ code for the state enum.
-	testEnumName    = "Test"    // testEnumName is the name in the C++ code for the test enum.
-	outcomeEnumName = "Outcome" // outcomeEnumName is the name in the C++ code for the outcome enum.
+	emptyTypeName   = "rtcg::Empty" // emptyTypeName is the name in the C++ code for the type of absent values.
+	stateEnumName   = "State"       // stateEnumName is the name in the C++ code for the state enum.
+	testEnumName    = "Test"        // testEnumName is the name in the C++ code for the test enum.
+	outcomeEnumName = "Outcome"     // outcomeEnumName is the name in the C++ code for the outcome enum.
 )
-- 
2.43.0


From 51663dc1fab63345da2594d6b55087ef0de4f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 06/28] fix: ignore callbacks on finished tests, and input
 acknowledgements before the start

---
 .../cpp/embed/templates/base/in_callback.cpp.tmpl    | 12 ++++++++++++
 .../cpp/embed/templates/base/out_callback.cpp.tmpl   |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
index 1bc8edc..4cf1ba9 100644
--- a/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
@@ -5,6 +5,18 @@ It expects a state/transition map.
 
 Base indent is set at 2, as we are inside a top-level function.
 */}}
+  // Don't acknowledge this callback if the test has already ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+
+  if (status_ == rtcg::Status::WAIT_START)
+  {
+    // We haven't sent the SUT any input to accept yet.
+    {{ template "log" "error" }}"Accepted input before the test started."{{ template "end_log" }}
+    end(rtcg::Status::BUG);
+    return;
+  }
+
   switch (state_)
   {
 {{- range $s, $ts := . }}
diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 18aaa51..051c762 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -5,6 +5,10 @@ It expects the output aggregate transition set as its dot.
 
 Base indent is set at 2, as we are inside a top-level function.
 */}}
+  // Don't acknowledge this callback if the test has already ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+
   auto value = {{ cppConvertFrom $.Channel.Name }}(msg);
 
   switch (state_)
-- 
2.43.0


From 5c75d87f24c638b1fb33ea5b81688bb1d7b2e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 07/28] fix: reject events on channels with no name

---
 internal/testlang/channel/channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index f14d49e..bf5cf9c 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -5,6 +5,7 @@ package channel
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -115,6 +116,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	}
 
 	c.Name = string(bytes.TrimSpace(fields[0]))
+	if c.Name == "" {
+		return nil, ErrEmptyName
+	}
 
 	kindBytes := bytes.TrimSpace(fields[1])
 	if err := c.Kind.UnmarshalText(kindBytes); err != nil {
@@ -128,6 +132,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	return fields[numEventParts-1], nil
 }
 
+// ErrEmptyName occurs when a channel being unmarshalled has no name.
+var ErrEmptyName = errors.New("channel needs a name")
+
 // BadFieldCountError is the error when the number of '.' delimited fields in an Event or Channel is not valid.
 type BadFieldCountError struct {
 	Got int // Got is the number of fields we got.
-- 
2.43.0


From 421df8f525b7b9f52acd8ca005263731c8ce4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 08/28] fix: reject null tests and states instead of crashing

---
 internal/stm/suite.go         | 30 ++++++++++++++++++++++++++++++
 internal/validate/errors.go   |  3 +++
 internal/validate/validate.go |  4 ++++
 3 files changed, 37 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 4504d22..698f259 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -21,9 +22,30 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	for name, test := range suite.Tests {
+		if err := checkTest(test); err != nil {
+			return nil, fmt.Errorf("malformed state machine %q: %w", name, err)
+		}
+	}
+
 	return &suite, nil
 }
 
+// checkTest checks that test, and each state in it, is actually present.
+func checkTest(test *Stm) error {
+	if test == nil || len(test.States) == 0 {
+		return ErrNoStates
+	}
+
+	for _, state := range test.States {
+		if state == nil {
+			return ErrNullState
+		}
+	}
+
+	return nil
+}
+
 // Write pretty-prints a state machine suite, as JSON, into writer w.
 func (s *Suite) Write(w io.Writer) error {
 	if err := serial.WriteJSON(w, s); err != nil {
@@ -32,3 +54,11 @@ func (s *Suite) Write(w io.Writer) error {
 
 	return nil
 }
+
+var (
+	// ErrNoStates occurs when a state machine being read has no states.
+	ErrNoStates = errors.New("state machine should have at least one state")
+
+	// ErrNullState occurs when a state machine being read has a null state.
+	ErrNullState = errors.New("state machine should not have null states")
+)
diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..ab0eb78 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test has no root node.
+	ErrNoRoot = errors.New("test should have a root node")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/validate.go b/internal/validate/validate.go
index 9d26ad1..9347c7a 100644
--- a/internal/validate/validate.go
+++ b/internal/validate/validate.go
@@ -20,6 +20,10 @@ func (t Test) Root() *testlang.Node {
 // Full performs a full validation of the test starting at root.
 // If successful, it returns a Test.
 func Full(root *testlang.Node) (*Test, error) {
+	if root == nil {
+		return nil, ErrNoRoot
+	}
+
 	// TODO: check test monotonicity and partitioning
 	err := testlang.Walk(root, func(node *testlang.Node) error {
 		var err error
-- 
2.43.0


From dc93060e5d8f9b42e6ba37012203e34eb21d2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/28] fix: keep state IDs unique when test nodes come with
 their own

---
 internal/stm/builder.go   | 39 +++++++++++++++++++++++++++++++++++++--
 internal/structure/set.go |  5 +++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/internal/stm/builder.go b/internal/stm/builder.go
index d458f34..d7680e3 100644
--- a/internal/stm/builder.go
+++ b/internal/stm/builder.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/structure"
@@ -13,6 +14,7 @@ import (
 type Builder struct {
 	nodeNum uint64                          // nodeNum is a monotonically increasing counter for naming unnamed nodes.
 	stack   structure.Stack[*testlang.Node] // stack is a stack used for in-order test traversal.
+	usedIDs structure.Set[testlang.NodeID]  // usedIDs is the set of node IDs already used in the test.
 	stm     Stm                             // stm is the state machine currently being built.
 }
 
@@ -76,6 +78,10 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	testRoot := test.Root()
 	testRoot.ID = "initial"
 
+	if err := b.collectIDs(testRoot); err != nil {
+		return b.stm, err
+	}
+
 	b.stack.Clear()
 	b.stack.Push(testRoot)
 
@@ -90,6 +96,30 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	return b.stm, nil
 }
 
+// collectIDs records each of the state IDs assigned in the test at root, making sure that they are unique.
+func (b *Builder) collectIDs(root *testlang.Node) error {
+	b.usedIDs = structure.NewSet[testlang.NodeID]()
+
+	err := testlang.Walk(root, func(node *testlang.Node) error {
+		if node.ID == "" || node.Outcome == testlang.OutcomeFail {
+			return nil
+		}
+
+		if b.usedIDs.Has(node.ID) {
+			return fmt.Errorf("%w: %q", ErrDuplicateID, node.ID)
+		}
+
+		b.usedIDs.Add(node.ID)
+
+		return nil
+	})
+	if err != nil {
+		return fmt.Errorf("couldn't assign state IDs: %w", err)
+	}
+
+	return nil
+}
+
 func (b *Builder) processNode(node *testlang.Node) error {
 	if node.Outcome == testlang.OutcomeFail {
 		// We don't emit failing states.
@@ -153,6 +183,11 @@ func (b *Builder) ensureNodeID(n *testlang.Node) {
 		return
 	}
 
-	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
-	b.nodeNum++
+	for n.ID == "" || b.usedIDs.Has(n.ID) {
+		n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
+		b.nodeNum++
+	}
 }
+
+// ErrDuplicateID occurs when two nodes in the same test have the same ID.
+var ErrDuplicateID = errors.New("node ID isn't unique in its test")
diff --git a/internal/structure/set.go b/internal/structure/set.go
index 32d192f..2ffd069 100644
--- a/internal/structure/set.go
+++ b/internal/structure/set.go
@@ -26,6 +26,11 @@ func (s *Set[T]) Add(values ...T) {
 	}
 }
 
+// Has checks whether value is present in s.
+func (s *Set[T]) Has(value T) bool {
+	return s.contents[value]
+}
+
 // Values gets an unsorted slice of values present in s.
 func (s *Set[T]) Values() []T {
 	values := make([]T, 0, len(s.contents))
-- 
2.43.0


From 57d82c1d521ccc8c0d323d9ae6919384466db4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/28] fix: load the generator config before cleaning the
 output directory

---
 cmd/rtcg-gen/main.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..802691f 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -74,11 +74,17 @@ func (a *genAction) run() error {
 		return fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	// Load this before cleaning, so that we don't delete anything if we can't then generate.
+	cfg, err := config.Load(a.configFile)
+	if err != nil {
+		return fmt.Errorf("couldn't get config for generator: %w", err)
+	}
+
 	if err := a.maybeClean(); err != nil {
 		return err
 	}
 
-	return a.generate(stms)
+	return a.generate(cfg, stms)
 }
 
 func (a *genAction) maybeClean() error {
@@ -113,12 +119,7 @@ func (a *genAction) readSuite() (*stm.Suite, error) {
 	return suite, errors.Join(err, file.Close())
 }
 
-func (a *genAction) generate(suite *stm.Suite) error {
-	cfg, err := config.Load(a.configFile)
-	if err != nil {
-		return fmt.Errorf("couldn't get config for generator: %w", err)
-	}
-
+func (a *genAction) generate(cfg *config.Config, suite *stm.Suite) error {
 	g, err := gen.New(*cfg, a.outputDir) // for now
 	if err != nil {
 		return fmt.Errorf("couldn't create generator: %w", err)
-- 
2.43.0


From 703f025076f15946b58b4688b5e2ae01e990ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 11/28] fix: don't truncate convert.cpp when generating in
 place

---
 internal/gen/cpp/copy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index bea3365..925e9e1 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -52,6 +52,11 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 	srcPath := filepath.Join(dirs.Input, name)
 	dstPath := filepath.Join(dirs.Output, name)
 
+	// If we're generating in place, then the file is already there, and copying would truncate it.
+	if isSameFile(srcPath, dstPath) {
+		return nil
+	}
+
 	src, err := os.Open(srcPath)
 	if err != nil {
 		return fmt.Errorf("couldn't open file %q: %w", srcPath, err)
@@ -60,6 +65,13 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 	return writeFile(src, dstPath)
 }
 
+func isSameFile(path1, path2 string) bool {
+	info1, err1 := os.Stat(path1)
+	info2, err2 := os.Stat(path2)
+
+	return err1 == nil && err2 == nil && os.SameFile(info1, info2)
+}
+
 func writeFile(src io.ReadCloser, outFile string) error {
 	dst, err := os.Create(outFile)
 	if err != nil {
-- 
2.43.0


From 4c680f6dbdeab8ff70c900138d61c59898f78a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 12/28] fix: reject test names that aren't directory names

---
 internal/gen/gen.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index b6900ae..b4147b7 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -2,8 +2,10 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
@@ -123,15 +125,20 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
 func (o *OnSuite) Generate() error {
+	if err := o.checkNames(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
@@ -143,6 +150,20 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// checkNames makes sure that each test name can safely name a directory inside the output directory.
+func (o *OnSuite) checkNames() error {
+	for name := range o.suite.Tests {
+		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, `/\`) {
+			return fmt.Errorf("%w: %q", ErrBadTestName, name)
+		}
+	}
+
+	return nil
+}
+
+// ErrBadTestName occurs when a test's name can't be used to name the directory of its code.
+var ErrBadTestName = errors.New("test name isn't a valid directory name")
+
 // mkdirs makes the various directories used by the generator.
 func (o *OnSuite) mkdirs() error {
 	for _, subg := range o.subgens {
-- 
2.43.0


From 55296a90b88fdc8cab9df49efa037735f63bcc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 13/28] fix: don't take an input file ./- for standard input

Cleaning the path turned './-', the usual way to name a file called '-',
into '-', which means standard input.
---
 cmd/rtcg-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 802691f..01c6919 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -67,7 +67,6 @@ type genAction struct {
 func (a *genAction) run() error {
 	a.outputDir = filepath.Clean(a.outputDir)
 	a.configFile = filepath.Clean(a.configFile)
-	a.inputFile = filepath.Clean(a.inputFile)
 
 	stms, err := a.readSuite()
 	if err != nil {
-- 
2.43.0


From 04f4df0f1069f28431fde0d06ac6e88db2e8dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 14/28] fix: refuse to clean the current directory however it
 is spelled

'-clean -output .' was refused, but '-clean -output ../here' and the
directory's absolute path removed the current directory.
---
 cmd/rtcg-gen/main.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 01c6919..a658493 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -91,7 +91,7 @@ func (a *genAction) maybeClean() error {
 		return nil
 	}
 
-	if a.outputDir == "." {
+	if isCurrentDir(a.outputDir) {
 		return ErrCleanDot
 	}
 
@@ -102,6 +102,23 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
+// isCurrentDir checks whether path names the current directory, however it is spelled.
+func isCurrentDir(path string) bool {
+	if path == "." {
+		return true
+	}
+
+	// We use Lstat as cleaning a symbolic link to the current directory only removes the link.
+	info, err := os.Lstat(path)
+	if err != nil {
+		return false
+	}
+
+	cwd, err := os.Stat(".")
+
+	return err == nil && os.SameFile(info, cwd)
+}
+
 // ErrCleanDot occurs if we try to clean "." (current directory).
 //
 // We don't support this because it would then change or confuse the current working directory.
-- 
2.43.0


From ca6478d13eb9e5551c9a519ebb8061470ac53813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 15/28] fix: let user conversion code include the generated
 convert.h

convert.h defined the default conversions without inline, so that including
it from both main.cpp and convert.cpp defined them twice, and used ROS
message types without including their headers.
---
 .../cpp/embed/templates/base/convert/convert_base.h.tmpl  | 8 ++++++--
 .../gen/cpp/embed/templates/ros/convert/convert.h.tmpl    | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl b/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
index 73e1ed5..c5746a6 100644
--- a/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
+++ b/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
@@ -13,6 +13,10 @@ Base indent is set at 0.
 #define CONVERT_H_DEFINED
 
 #include "rtcg.h"
+
+{{- /* Allow variants to bring in what they need for their types: */ -}}
+{{- block "convert_includes" . }}
+{{- end }}
 {{/* Bring any user-defined includes into scope, as they'll likely define override types: */ -}}
 {{- range .Includes }}
 #include {{ if .IsSystem -}} < {{- else -}} " {{- end -}} {{ .Src }} {{- if .IsSystem -}} > {{- else -}} " {{- end }}
@@ -53,7 +57,7 @@ Base indent is set at 0.
 // Converting from channel message types to basic types
 {{- range $ch, $ty := .ChannelTypes }}
 
-{{ cppType .Base }} {{ cppConvertFrom $ch }}(const {{ cppChannelMsgType $ch }} msg)
+{{ if not .HasOverride }}inline {{ end }}{{ cppType .Base }} {{ cppConvertFrom $ch }}(const {{ cppChannelMsgType $ch }} msg)
 {{-   if .HasOverride -}}
 ; // User override supplied
 {{-   else }}
@@ -66,7 +70,7 @@ Base indent is set at 0.
 // Converting from basic types to channel value types
 {{- range $ch, $ty := .ChannelTypes }}
 
-{{ cppChannelValueType $ch }} {{ cppConvertTo $ch }}(const {{ cppType .Base }} value)
+{{ if not .HasOverride }}inline {{ end }}{{ cppChannelValueType $ch }} {{ cppConvertTo $ch }}(const {{ cppType .Base }} value)
 {{-   if .HasOverride -}}
 ; // User override supplied
 {{-   else }}
diff --git a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
index 7991716..fab0937 100644
--- a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
@@ -45,4 +45,9 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- /* Calculates the message type of a channel. */ -}}
 {{- define "msg_type" -}}{{ cppChannelValueType . }}::ConstPtr&{{- end -}}
 
+{{- define "convert_includes" }}
+#include "std_msgs/Empty.h"
+#include "std_msgs/String.h"
+{{- end -}}
+
 {{- template "convert_base.h.tmpl" . -}}
\ No newline at end of file
-- 
2.43.0


From 2ace3e92149626c8c8927f4f54b7a693669f4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 16/28] fix: don't collapse chains whose passing node doesn't
 lead to the failing one

---
 internal/trace/collapse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/trace/collapse.go b/internal/trace/collapse.go
index 9c3e568..7b95e78 100644
--- a/internal/trace/collapse.go
+++ b/internal/trace/collapse.go
@@ -22,6 +22,8 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 	}
 
 	for done, pos := false, 1; !done; pos++ {
+		previous := test.Outcome
+
 		if test, err = validate.OneNext(test); err != nil {
 			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
 		}
@@ -30,6 +32,11 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
 		}
 
+		// The passing node holds the forbidden event, so it, and only it, must lead to the failing node.
+		if (previous == testlang.OutcomePass) != (test.Outcome == testlang.OutcomeFail) {
+			return collapsed, BadOutcomeError{Position: pos, Outcome: test.Outcome}
+		}
+
 		if done, err = collapseNode(&collapsed, test, pos); err != nil {
 			return collapsed, err
 		}
-- 
2.43.0


From 87b8b75102816522eaedd38faf77396b5951cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:00 +0000
Subject: [PATCH 17/28] fix: give numeric ROS channels without an override a
 message type

---
 .../cpp/embed/templates/ros/convert/convert.h.tmpl  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
index fab0937..52fb52a 100644
--- a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
@@ -28,7 +28,9 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{-   else if .IsEmpty }}
   return std_msgs::Empty{};  // No value to convert
 {{-   else }}
-  return value;  // No conversion required
+  {{ template "type" . }} msg;
+  msg.data = value;
+  return msg;
 {{-   end -}}
 {{- end -}}
 
@@ -37,6 +39,12 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- /* TODO: add more types here */ -}}
 {{-   if .IsEmpty -}}
   std_msgs::Empty
+{{-   else if .IsNat -}}
+  std_msgs::UInt32
+{{-   else if .IsInt -}}
+  std_msgs::Int32
+{{-   else if .IsReal -}}
+  std_msgs::Float64
 {{-   else -}}
   std_msgs::String
 {{-   end -}}
@@ -47,7 +55,10 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 
 {{- define "convert_includes" }}
 #include "std_msgs/Empty.h"
+#include "std_msgs/Float64.h"
+#include "std_msgs/Int32.h"
 #include "std_msgs/String.h"
+#include "std_msgs/UInt32.h"
 {{- end -}}
 
 {{- template "convert_base.h.tmpl" . -}}
\ No newline at end of file
-- 
2.43.0


From 8e376dd83159c9d7691056c08b4bf4c45a390154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 18/28] fix: end animated tests with their input instead of
 prompting forever

---
 internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 79b889c..fb28b83 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -26,9 +26,9 @@
 
     std::cout << "\n> ";
     std::string choice;
-    std::cin >> choice;
 
-    if (choice == "timeout")
+    // If there is nothing more to read, all that can still happen is a timeout.
+    if (!(std::cin >> choice) || choice == "timeout")
       stm.timeoutCallback();
 {{- if .Transitions.FirstStateHasIn }}
     else if (choice == "ready" && s == rtcg::Status::WAIT_START)
-- 
2.43.0


From b6e25ba2b7201ad2b73be8f41b4162c5d54db988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 19/28] fix: refuse values that animated tests can't read

---
 .../gen/cpp/embed/templates/animate/main.cpp.tmpl     |  1 +
 .../cpp/embed/templates/animate/main_body.cpp.tmpl    | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main.cpp.tmpl
index a3be0c8..96aa29e 100644
--- a/internal/gen/cpp/embed/templates/animate/main.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main.cpp.tmpl
@@ -1,5 +1,6 @@
 {{- define "system_includes" }}
 #include <iostream>
+#include <sstream>
 {{- end -}}
 
 {{- define "constants" }}
diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index fb28b83..8c9f909 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -45,7 +45,16 @@
     {
       {{ cppType $ctype.Base }} in;
 {{- if not $ctype.Base.IsEmpty }}
-      std::cin >> in;
+      std::string word;
+      std::cin >> word;
+
+      // Refuse anything that isn't entirely a value of the right type.
+      std::istringstream text{word};
+      if (!(text >> in && text.eof()))
+      {
+        std::cout << "Sorry, try again.\n";
+        continue;
+      }
 {{- end }}
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
-- 
2.43.0


From 24b15243a9534ed0cfe73c177bcfd6bce019ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 20/28] fix: let enumeration values typed to animated tests
 contain spaces

---
 .../gen/cpp/embed/templates/animate/main_body.cpp.tmpl     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 8c9f909..ba2a83a 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -44,7 +44,12 @@
     else if (choice == "{{ $cn }}")
     {
       {{ cppType $ctype.Base }} in;
-{{- if not $ctype.Base.IsEmpty }}
+{{- if $ctype.Base.IsEnum }}
+      // The value is the rest of the line, as it may contain spaces.
+      if (!std::getline(std::cin >> std::ws, in))
+        continue;
+      in.erase(in.find_last_not_of(" \t\r") + 1);
+{{- else if not $ctype.Base.IsEmpty }}
       std::string word;
       std::cin >> word;
 
-- 
2.43.0


From 8d8b46a25f72a974c660cfde2069226080cd1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 21/28] fix: refuse negative naturals typed to animated tests

---
 internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index ba2a83a..4cad91c 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -55,7 +55,7 @@
 
       // Refuse anything that isn't entirely a value of the right type.
       std::istringstream text{word};
-      if (!(text >> in && text.eof()))
+      if ({{ if $ctype.Base.IsNat }}word[0] == '-' || {{ end }}!(text >> in && text.eof()))
       {
         std::cout << "Sorry, try again.\n";
         continue;
-- 
2.43.0


From 787fa5343eef5a4f0cf0b531b4279dace81d182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:19 +0000
Subject: [PATCH 22/28] fix: read state machine states that leave out their
 verdicts

The field is declared as one that may be left out, but a state without it
made rtcg-gen fail halfway through generating the test's C++ code.
---
 internal/stm/suite.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 698f259..aff48f6 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -6,6 +6,7 @@ import (
 	"io"
 
 	"github.com/UoY-RoboStar/rtcg/internal/serial"
+	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
 )
 
 // Suite is a test suite, in state machine format.
@@ -32,6 +33,8 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 }
 
 // checkTest checks that test, and each state in it, is actually present.
+//
+// States that leave out their verdicts get empty ones.
 func checkTest(test *Stm) error {
 	if test == nil || len(test.States) == 0 {
 		return ErrNoStates
@@ -41,6 +44,10 @@ func checkTest(test *Stm) error {
 		if state == nil {
 			return ErrNullState
 		}
+
+		if state.Verdict == nil {
+			state.Verdict = &verdict.Verdict{}
+		}
 	}
 
 	return nil
-- 
2.43.0


From db68070a139898d28cadad66c510d1ab4f11f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:47 +0000
Subject: [PATCH 23/28] fix: keep verdicts left out of a state machine suite
 left out

Reading a state machine suite added empty verdicts to states that had none, so
that writing it again gave another document. Generation now takes such states
as they are.
---
 internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl | 6 ++++--
 internal/stm/suite.go                                      | 7 -------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
index 8e80ca5..7253de8 100644
--- a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
@@ -7,12 +7,14 @@ Base indent is set at 2, as we are inside a top-level function.
 */}}
   {{ template "log" "info" }}"Entered state {{ .ID }}."{{ template "end_log" }}
 
-{{- range $t, $o := .Verdict }}
+{{- with .Verdict }}
+{{-   range $t, $o := . }}
   verdict_.{{ $t }}({{ cppOutcomeEnum $o }});
+{{-   end }}
 {{- end }}
 
 {{- /* Assuming that this is a valid state, ie at most one input, and no mix of inputs/outputs. */ -}}
-{{- if .Verdict.IsFail }}
+{{- if and .Verdict .Verdict.IsFail }}
 
   end(rtcg::Status::FAIL); // This state fails at least one test
 {{- else if .HasIn }}
diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index aff48f6..698f259 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -6,7 +6,6 @@ import (
 	"io"
 
 	"github.com/UoY-RoboStar/rtcg/internal/serial"
-	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
 )
 
 // Suite is a test suite, in state machine format.
@@ -33,8 +32,6 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 }
 
 // checkTest checks that test, and each state in it, is actually present.
-//
-// States that leave out their verdicts get empty ones.
 func checkTest(test *Stm) error {
 	if test == nil || len(test.States) == 0 {
 		return ErrNoStates
@@ -44,10 +41,6 @@ func checkTest(test *Stm) error {
 		if state == nil {
 			return ErrNullState
 		}
-
-		if state.Verdict == nil {
-			state.Verdict = &verdict.Verdict{}
-		}
 	}
 
 	return nil
-- 
2.43.0


From 63cab389011381917008876a1e7c64482bbdca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:49 +0000
Subject: [PATCH 24/28] fix: refuse broken state machines before generating
 anything

State machines that lack state identifiers, have transitions to states that
don't exist, transition sets without a channel or transitions, or verdicts on
tests that they don't list were taken, and gave code that doesn't compile, or
made rtcg-gen fail halfway, after cleaning.
---
 cmd/rtcg-gen/main.go  |  4 ++
 internal/stm/check.go | 93 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 97 insertions(+)
 create mode 100644 internal/stm/check.go

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index a658493..b000577 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -73,6 +73,10 @@ func (a *genAction) run() error {
 		return fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	if err := stms.Check(); err != nil {
+		return fmt.Errorf("couldn't generate for state machine suite: %w", err)
+	}
+
 	// Load this before cleaning, so that we don't delete anything if we can't then generate.
 	cfg, err := config.Load(a.configFile)
 	if err != nil {
diff --git a/internal/stm/check.go b/internal/stm/check.go
new file mode 100644
index 0000000..811e870
--- /dev/null
+++ b/internal/stm/check.go
@@ -0,0 +1,93 @@
+package stm
+
+import (
+	"errors"
+	"fmt"
+
+	"github.com/UoY-RoboStar/rtcg/internal/structure"
+	"github.com/UoY-RoboStar/rtcg/internal/testlang"
+)
+
+// Check checks that code can be generated for each state machine in the suite.
+//
+// Suites that didn't come from a Builder might have states that lack identifiers, transitions to states that don't
+// exist, and so on.
+func (s *Suite) Check() error {
+	for name, test := range s.Tests {
+		if err := test.check(); err != nil {
+			return fmt.Errorf("malformed state machine %q: %w", name, err)
+		}
+	}
+
+	return nil
+}
+
+func (s *Stm) check() error {
+	ids := structure.NewSet[testlang.NodeID]()
+
+	for _, state := range s.States {
+		if state.ID == "" {
+			return ErrNoStateID
+		}
+
+		if ids.Has(state.ID) {
+			return fmt.Errorf("%w: %q", ErrDuplicateID, state.ID)
+		}
+
+		ids.Add(state.ID)
+	}
+
+	for _, state := range s.States {
+		if err := s.checkState(state, ids); err != nil {
+			return fmt.Errorf("state %q: %w", state.ID, err)
+		}
+	}
+
+	return nil
+}
+
+func (s *Stm) checkState(state *State, ids structure.Set[testlang.NodeID]) error {
+	// States may leave out their verdicts.
+	if state.Verdict != nil {
+		for _, test := range state.Verdict.Tests() {
+			if !s.Tests.Has(test) {
+				return fmt.Errorf("%w: %q", ErrUnknownTest, test)
+			}
+		}
+	}
+
+	for _, set := range state.TransitionSets {
+		if set.Channel.Name == "" {
+			return ErrNoChannel
+		}
+
+		if len(set.Transitions) == 0 {
+			return fmt.Errorf("%w: %s", ErrNoTransitions, &set.Channel)
+		}
+
+		for _, tra := range set.Transitions {
+			if !ids.Has(tra.Next) {
+				return fmt.Errorf("%w: %q", ErrUnknownState, tra.Next)
+			}
+		}
+	}
+
+	return nil
+}
+
+var (
+	// ErrNoStateID occurs when a state has no identifier.
+	ErrNoStateID = errors.New("state has no identifier")
+
+	// ErrUnknownTest occurs when a state has a verdict for a test that isn't one of its state machine's.
+	ErrUnknownTest = errors.New("verdict for unknown test")
+
+	// ErrNoChannel occurs when a transition set has no channel.
+	ErrNoChannel = errors.New("transition set has no channel")
+
+	// ErrNoTransitions occurs when a transition set has no transitions.
+	ErrNoTransitions = errors.New("transition set has no transitions")
+
+	// ErrUnknownState occurs when a transition leads to a state that isn't in its state machine.
+	ErrUnknownState = errors.New("transition to unknown state")
+)
-- 
2.43.0


From cda0568c920fcf26ba1bda7961f819b0d48a3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:53 +0000
Subject: [PATCH 25/28] fix: refuse traces that aren't valid UTF-8

Names and values that weren't valid UTF-8 were written as JSON with replacement
characters, so that they changed, and tests whose names became equal were lost.
---
 internal/trace/read.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/trace/read.go b/internal/trace/read.go
index 4ddf464..e473a7e 100644
--- a/internal/trace/read.go
+++ b/internal/trace/read.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
 )
@@ -58,6 +59,11 @@ func parseRow(row []string) (Forbidden, error) {
 	}
 
 	for cellIndex, cell := range row {
+		// We couldn't output such cells as JSON, and distinct ones might become equal if we tried.
+		if !utf8.ValidString(cell) {
+			return trace, fmt.Errorf("%w: %q", ErrNotUTF8, cell)
+		}
+
 		if cellIndex == 0 {
 			cell = tryParseName(cell, &trace)
 		}
@@ -89,4 +95,10 @@ func selectEvent(index int, prefixLen int, trace *Forbidden) *testlang.Event {
 	return &trace.Prefix[index]
 }
 
-var ErrNeedOneEvent = errors.New("each trace must have at least one event")
+var (
+	// ErrNeedOneEvent occurs when a trace has no events.
+	ErrNeedOneEvent = errors.New("each trace must have at least one event")
+
+	// ErrNotUTF8 occurs when a cell of a trace isn't valid UTF-8.
+	ErrNotUTF8 = errors.New("trace cell is not valid UTF-8")
+)
-- 
2.43.0


From f4bdde2014e5862c94aea9a22f79128eedc5ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:43 +0000
Subject: [PATCH 26/28] fix: refuse channels followed by a value

---
 internal/testlang/channel/channel.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index bf5cf9c..1d7d48c 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -81,9 +81,17 @@ func (c *Channel) MarshalText() ([]byte, error) {
 }
 
 func (c *Channel) UnmarshalText(text []byte) error {
-	_, err := c.UnmarshalTextWithRemainder(text)
+	remainder, err := c.UnmarshalTextWithRemainder(text)
+	if err != nil {
+		return err
+	}
 
-	return err
+	// Only events have values; a value here would otherwise be lost.
+	if remainder != nil {
+		return fmt.Errorf("%w: %q", ErrHasValue, remainder)
+	}
+
+	return nil
 }
 
 func (c *Channel) String() string {
@@ -135,6 +143,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 // ErrEmptyName occurs when a channel being unmarshalled has no name.
 var ErrEmptyName = errors.New("channel needs a name")
 
+// ErrHasValue occurs when the text of a channel being unmarshalled has a value after the direction, as only events do.
+var ErrHasValue = errors.New("channel can't have a value")
+
 // BadFieldCountError is the error when the number of '.' delimited fields in an Event or Channel is not valid.
 type BadFieldCountError struct {
 	Got int // Got is the number of fields we got.
-- 
2.43.0


From b49e85e39f1371e026c94892da2897df694f0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:40 +0000
Subject: [PATCH 27/28] fix: refuse JSON suites followed by anything else, or
 by a read error

---
 internal/serial/serial.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/serial/serial.go b/internal/serial/serial.go
index 2663015..96c44e9 100644
--- a/internal/serial/serial.go
+++ b/internal/serial/serial.go
@@ -3,11 +3,17 @@ package serial
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 )
 
+// ErrTrailing occurs when there is something after the JSON representation being read.
+var ErrTrailing = errors.New("unexpected text after the end")
+
 // ReadJSON reads a JSON representation from reader into dest.
+//
+// The representation must be all that there is in reader.
 func ReadJSON(reader io.Reader, dest any) error {
 	j := json.NewDecoder(reader)
 
@@ -15,9 +21,25 @@ func ReadJSON(reader io.Reader, dest any) error {
 		return fmt.Errorf("JSON read error: %w", err)
 	}
 
+	if err := expectEnd(j); err != nil {
+		return fmt.Errorf("JSON read error: %w", err)
+	}
+
 	return nil
 }
 
+// expectEnd makes sure that nothing is left to read in decoder.
+func expectEnd(decoder *json.Decoder) error {
+	switch _, err := decoder.Token(); {
+	case err == nil:
+		return ErrTrailing
+	case errors.Is(err, io.EOF):
+		return nil
+	default:
+		return err //nolint:wrapcheck // ReadJSON wraps it.
+	}
+}
+
 // WriteJSON writes a JSON representation for value into writer.
 func WriteJSON(writer io.Writer, value any) error {
 	j := json.NewEncoder(writer)
-- 
2.43.0


From 0be927036cc770d5674d201f09374ae0e0f53f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:40 +0000
Subject: [PATCH 28/28] fix: refuse configurations followed by anything else

---
 internal/gen/config/config.go | 44 ++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/gen/config/config.go b/internal/gen/config/config.go
index 299e482..647ad85 100644
--- a/internal/gen/config/config.go
+++ b/internal/gen/config/config.go
@@ -1,9 +1,11 @@
 package config
 
 import (
+	"bytes"
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -26,7 +28,7 @@ func Load(path string) (*Config, error) {
 		return nil, fmt.Errorf("couldn't open config file %q: %w", path, err)
 	}
 
-	if err := xml.NewDecoder(file).Decode(&config); err != nil {
+	if err := readXML(file, &config); err != nil {
 		err = fmt.Errorf("couldn't decode config file %q: %w", path, err)
 
 		return nil, errors.Join(err, file.Close())
@@ -42,3 +44,43 @@ func Load(path string) (*Config, error) {
 
 	return &config, nil
 }
+
+// readXML reads an XML document from reader into dest.
+func readXML(reader io.Reader, dest any) error {
+	decoder := xml.NewDecoder(reader)
+
+	if err := decoder.Decode(dest); err != nil {
+		return fmt.Errorf("XML read error: %w", err)
+	}
+
+	// Decode stops at the end of the root element, which must be the last.
+	for {
+		token, err := decoder.Token()
+		if errors.Is(err, io.EOF) {
+			return nil
+		}
+
+		if err != nil {
+			return fmt.Errorf("XML read error: %w", err)
+		}
+
+		if !isMisc(token) {
+			return ErrTrailing
+		}
+	}
+}
+
+// isMisc gets whether token can follow the root element of a document.
+func isMisc(token xml.Token) bool {
+	switch token := token.(type) {
+	case xml.Comment, xml.ProcInst:
+		return true
+	case xml.CharData:
+		return len(bytes.TrimSpace(token)) == 0
+	default:
+		return false
+	}
+}
+
+// ErrTrailing occurs when there is something after the end of a config.
+var ErrTrailing = errors.New("unexpected text after the end")
-- 
2.43.0

