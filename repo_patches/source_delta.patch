From be8afabc8dd9d152386dfd268d0861b99dede1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 1/9] fix: read whole lines and report read errors in Lex

ReadLine returns long lines in fragments, which were taken for lines, and
drops an error that follows part of a line; every other read error made Lex
loop for ever.
---
 step/lex.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..1467692 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -64,14 +64,17 @@ func (l *Lexer) Lex() SymbolTable {
 	symbolText := ""
 	symbolTable := make(SymbolTable, 0)
 	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
-	for {
-		line, _, err := reader.ReadLine()
+	for eof := false; !eof; {
+		/* a whole line, however long it is */
+		line, err := reader.ReadString('\n')
 
 		if err == io.EOF {
-			break
+			eof = true
+		} else {
+			check(err)
 		}
 
-		buffer := string(line)
+		buffer := strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r")
 
 		/* DEBUG BREAKPOINT */
 		//fmt.Println("buffer:", buffer, "\n buffer Length:", len(buffer))
-- 
2.43.0


From deed71319d2e2bdca5b84076b34b34869f01e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 2/9] fix: do not parse the command line in Lex

Lexers running at the same time raced on the global flag set, and a program
whose arguments are not flags of this package was ended by it.
---
 step/lex.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index 1467692..7f529e3 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -2,7 +2,6 @@ package step
 
 import (
 	"bufio"
-	"flag"
 	"io"
 	"os"
 	"strings"
@@ -52,7 +51,6 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	flag.Parse()
 	file, err := os.Open(l.Filename)
 
 	check(err)
-- 
2.43.0


From 4ba58b6693fbdbd3594faabbb607c3abd2253245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 3/9] fix: accept files with header and trailer sections, and
 empty ones

Text without a definition made Lex panic or became an entry, and
identifiers kept the white space around them.
---
 step/lex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/step/lex.go b/step/lex.go
index 7f529e3..e8f566e 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -124,7 +124,11 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	identifier := strings.TrimSpace(split[0])
+	/* blank lines, header and trailer define nothing */
+	if len(split) < 2 || !strings.HasPrefix(identifier, "#") {
+		return
+	}
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
-- 
2.43.0


From b8fa087dcbf734085a8e989b4118ea1ebfa21018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 4/9] fix: do not take a line with an equals sign in a string
 for a definition

A continuation line or header line containing '=' inside a string started
a new symbol and cut the current one.
---
 step/lex.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/step/lex.go b/step/lex.go
index e8f566e..b45ac8d 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -88,7 +88,7 @@ func (l *Lexer) Lex() SymbolTable {
 		/*	you can optimize this further more by making sure the symbol
 			is init to the first value when you start parsing and remvove
 			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
+		if startsDefinition(symbolText, buffer) {
 			/* --sync method
 			---fmt.Println("emit") */
 
@@ -114,6 +114,19 @@ func (l *Lexer) Lex() SymbolTable {
 	return symbolTable
 }
 
+// startsDefinition : tells whether a line starts a new definition rather than
+// continuing the symbol text read so far
+func startsDefinition(symbolText, line string) bool {
+	/* inside of a string everything is part of the string */
+	if strings.Count(symbolText, "'")%2 == 1 {
+		return false
+	}
+	identifier := strings.SplitN(line, "=", 2)[0]
+	return len(identifier) < len(line) &&
+		strings.HasPrefix(strings.TrimSpace(identifier), "#") &&
+		!strings.ContainsAny(identifier, "'(,)")
+}
+
 // emit : emits the symbol to the symbols chanel
 func (l *Lexer) emit(s Symbol) {
 	l.SymbolsChan <- s
-- 
2.43.0


From 245795da61e8f1dd39183b96c89b0450663ad5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 5/9] fix: split arguments at the commas and the end of the
 definition

Brackets and commas inside strings counted, the last argument lost two
characters whatever they were (also in a definition cut short), arguments
kept the white space around them, and bytes that are not UTF-8 were replaced.
---
 step/util.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/step/util.go b/step/util.go
index 3d97f34..2cb3aaa 100644
--- a/step/util.go
+++ b/step/util.go
@@ -13,25 +13,33 @@ import (
 func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
-	argument := make([]rune, 0)
-	for _, r := range argumentsText {
-		if r == '(' {
-			openBrackets++
-		}
-		if r == ')' {
+	inString := false
+	start := 0
+	for i := 0; i < len(argumentsText); i++ {
+		switch argumentsText[i] {
+		case '\'':
+			inString = !inString
+		case '(':
+			if !inString {
+				openBrackets++
+			}
+		case ')':
+			if inString {
+				continue
+			}
+			if openBrackets == 0 {
+				/* end of the definition */
+				return append(arguments, strings.TrimSpace(argumentsText[start:i]))
+			}
 			openBrackets--
+		case ',':
+			if openBrackets == 0 && !inString {
+				arguments = append(arguments, strings.TrimSpace(argumentsText[start:i]))
+				start = i + 1
+			}
 		}
-		if openBrackets == 0 && r == ',' {
-			arguments = append(arguments, string(argument))
-			argument = make([]rune, 0)
-			continue
-		}
-		argument = append(argument, r)
 	}
-	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
-	arguments = append(arguments, lastArgument)
-	return arguments
+	panic("definition without end: (" + argumentsText)
 }
 
 // getArray : gets an array from arguments refactor
-- 
2.43.0


From be10af375c7c7c2707d4e2b73d0a79e2d7e83e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 6/9] fix: process a referenced definition according to its own
 type

A reference was processed as the type expected of it, so that what Parse
did with a definition, and whether it panicked, depended on whether the
table happened to be iterated to it or to the reference first. The dump of
the pending states depended on that order too.
---
 step/template.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/step/template.go b/step/template.go
index 615acfd..98ef3ac 100644
--- a/step/template.go
+++ b/step/template.go
@@ -11,18 +11,22 @@ func (p *Parser) skipUtility(key string) {
 	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
 }
 
+/* follow : adds the definition a key refers to to the next states,
+---with the state its own type asks for*/
+func (p *Parser) follow(key string) {
+	if definition, found := p.lexemes[key]; found {
+		p.nextStates = append(p.nextStates, parseState{fn: p.bridge(definition), key: key})
+	}
+}
+
 func (p *Parser) productDefinitionShape(key string) {
 
-	productDefinitionState := parseState{fn: p.productDefinition, key: p.lexemes[key].Arguments[2]}
-	p.nextStates = append(p.nextStates, productDefinitionState)
+	p.follow(p.lexemes[key].Arguments[2])
 
 }
 func (p *Parser) productDefinition(key string) {
 
-	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[2]}
-
-	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
+	p.follow(p.lexemes[key].Arguments[2])
 
 }
 
@@ -36,10 +40,7 @@ func (p *Parser) productDefinitionContext(key string) {
 
 func (p *Parser) axis2Placement3D(key string) {
 
-	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
+	p.follow(p.lexemes[key].Arguments[1])
 
 }
 
@@ -96,13 +97,10 @@ func (p *Parser) advancedFace(key string) {
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
 	case faceType == "SPHERICAL_SURFACE":
 		fmt.Println("it's a sphere")
-		sphericalSurfaceState := parseState{fn: p.sphericalSurface, key: neighbourID}
-		p.nextStates = append(p.nextStates, sphericalSurfaceState)
-		fmt.Println("STATES", p.nextStates)
+		p.follow(neighbourID)
 
 	case faceType == "TOROIDAL_SURFACE":
-		ToroidalSurfaceState := parseState{fn: p.toroidalSurface, key: neighbourID}
-		p.nextStates = append(p.nextStates, ToroidalSurfaceState)
+		p.follow(neighbourID)
 
 	default:
 
-- 
2.43.0


From c977147f76cdcaf35e729065edf3283ebe6ac529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 7/9] fix: fail when an exported file could not be written
 completely

The encoder ignores errors of all but its last write, so that a full disk
left a truncated file behind a normal return.
---
 glTF/export.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/glTF/export.go b/glTF/export.go
index d005293..ccb7c14 100644
--- a/glTF/export.go
+++ b/glTF/export.go
@@ -1,8 +1,10 @@
 package glTF
 
 import (
+	"bytes"
 	"fmt"
 	"geGoMetry/shape"
+	"io/ioutil"
 
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/modeler"
@@ -47,7 +49,13 @@ func Export(mesh shape.Mesh, outputFile string) {
 	}}
 	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}
 	doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)
-	if err := gltf.SaveBinary(doc, outputFile); err != nil {
+
+	/* the encoder ignores failing writes, so it writes to memory */
+	var content bytes.Buffer
+	if err := gltf.NewEncoder(&content).Encode(doc); err != nil {
+		panic(err)
+	}
+	if err := ioutil.WriteFile(outputFile, content.Bytes(), 0666); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From cac3b79be95596aa19a31611d6d612efa755c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 8/9] fix: index only existing vertices in circles and ellipses

The last sector referred to a vertex after the last one; the triangles
that close the shape are added behind the loop.
---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From 9eebd1149ec2e8433b22d68d051e8159f70dd47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 9/9] fix: place spheres and tori at their center

The center given was ignored.
---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0

