From d6978745c0e95239be072e16958e83efbe876378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 01/32] fix: lexer: distinguish end of input from NUL bytes and
 never step back past it

At the end of the input next() consumed nothing, but backup() still moved
the position one byte back. An input ending in '@' therefore crashed with
a slice bounds error. A NUL byte was mistaken for the end of the input, so
that everything following it was silently dropped.
---
 token/lexer.go       | 43 ++++++++++++++++++++++---------------------
 token/swift_lexer.go |  2 +-
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..9fee701 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	eof                       = 0
+	eof                       = -1 // no byte of the input, not even NUL
 	dataElementDelimiter      = '+'
 	groupDataElementDelimiter = ':'
 	segmentDelimiter          = '\''
@@ -90,14 +90,14 @@ func (l *Lexer) emit(t Type) {
 	l.start = l.pos
 }
 
-// next returns the next byte in the input.
-func (l *Lexer) next() byte {
-	if l.pos >= len(l.input) {
-		return eof
+// next consumes and returns the next byte in the input. At the end of the
+// input it returns eof and consumes nothing.
+func (l *Lexer) next() rune {
+	r := l.peek()
+	if r != eof {
+		l.pos++
 	}
-	b := l.input[l.pos]
-	l.pos++
-	return b
+	return r
 }
 
 // ignore skips over the pending input before this point.
@@ -106,34 +106,35 @@ func (l *Lexer) ignore() {
 }
 
 // backup steps back one byte.
-// Can be called only once per call of next.
+// Can be called only once per call of next, and only if next did not return eof.
 func (l *Lexer) backup() {
 	l.pos--
 }
 
 // peek returns but does not consume
 // the next byte in the input.
-func (l *Lexer) peek() byte {
-	r := l.next()
-	l.backup()
-	return r
+func (l *Lexer) peek() rune {
+	if l.pos >= len(l.input) {
+		return eof
+	}
+	return rune(l.input[l.pos])
 }
 
 // accept consumes the next byte
 // if it's from the valid set.
 func (l *Lexer) accept(valid ...byte) bool {
-	if bytes.IndexByte(valid, l.next()) >= 0 {
-		return true
+	r := l.peek()
+	if r == eof || bytes.IndexByte(valid, byte(r)) < 0 {
+		return false
 	}
-	l.backup()
-	return false
+	l.pos++
+	return true
 }
 
 // acceptRun consumes a run of bytes from the valid set.
 func (l *Lexer) acceptRun(valid []byte) {
-	for bytes.IndexByte(valid, l.next()) >= 0 {
+	for l.accept(valid...) {
 	}
-	l.backup()
 }
 
 // error returns an error token and terminates the scan by passing
@@ -279,10 +280,10 @@ func lexNumber(l *Lexer) LexerStateFn {
 
 }
 
-func isDelimiter(r byte) bool {
+func isDelimiter(r rune) bool {
 	return r == dataElementDelimiter || r == segmentDelimiter || r == groupDataElementDelimiter
 }
 
-func isSyntaxSymbol(r byte) bool {
+func isSyntaxSymbol(r rune) bool {
 	return r == dataElementDelimiter || r == segmentDelimiter || r == groupDataElementDelimiter || r == escapeCharacter || r == binaryIdentifier
 }
diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..d4c9513 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -197,7 +197,7 @@ func isTagBoundary(s *Lexer) bool {
 	return isTagBoundary
 }
 
-func isSwiftAlphaNumeric(r byte) bool {
+func isSwiftAlphaNumeric(r rune) bool {
 	return r == dash || r == lineFeed || r == ' ' || ('\'' <= r && r <= ')') || ('+' <= r && r <= ':') || r == '?' || ('A' <= r && r <= 'Z') || ('a' <= r && r <= 'z')
 }
 
-- 
2.43.0


From e5fd58fc31b299e5118fdb7c5c1af0c92199c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 02/32] fix: lexer: reject binary lengths that exceed the
 remaining input

The announced length was added to the position unchecked, so that a huge
length overflowed it and crashed the lexer.
---
 token/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/lexer.go b/token/lexer.go
index 9fee701..02884cf 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -220,6 +220,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From 3699bee59f35103750f290295de166effe19ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 03/32] fix: message: decomposing a message again does not
 duplicate its segments

---
 message/segment_extractor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..bcce47c 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -23,6 +23,7 @@ type SegmentExtractor struct {
 // Extract extract segment byte slices from the message. It will return a copy
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
+	var segments [][]byte
 	var current []byte
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
@@ -32,10 +33,11 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 		}
 		current = append(current, t.Value()...)
 		if t.Type() == token.SEGMENT_END_MARKER {
-			s.segments = append(s.segments, current)
+			segments = append(segments, current)
 			current = []byte{}
 		}
 	}
+	s.segments = segments
 	result := make([][]byte, len(s.segments))
 	copy(result, s.segments)
 	return result, nil
-- 
2.43.0


From ffe63cf07ffb8b2a7e50becd19fe93d1ad6df5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 04/32] fix: message: look segments up by their whole
 identifier, not by a prefix

---
 message/segment_extractor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index bcce47c..064531f 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -46,9 +46,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 // FindSegment searches for a given ID and returns the first appearing segment
 // bytes if present
 func (s *SegmentExtractor) FindSegment(id string) []byte {
-	byteID := []byte(id)
 	for _, segment := range s.segments {
-		if bytes.HasPrefix(segment, byteID) {
+		segmentID := bytes.SplitN(segment, []byte(":"), 2)[0]
+		if string(segmentID) == id {
 			return segment
 		}
 	}
-- 
2.43.0


From c09271cd4b312f2a230fd92e6c67ebe0db6cf84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 05/32] fix: element: splitting a group neither overwrites the
 caller's bytes nor drops its last element

---
 element/element_extractor.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..e03a122 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,12 +14,6 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
@@ -35,7 +28,10 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
-	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
+	// The lexer expects a delimiter after every element, the last one included.
+	end := len(e.rawDataElementGroup)
+	terminated := false
+	lexer := token.NewLexer("ElementExtractor", append(e.rawDataElementGroup[:end:end], '+'))
 	for lexer.HasNext() {
 		t := lexer.Next()
 		currentType := t.Type()
@@ -43,11 +39,14 @@ func (e *groupExtractor) Extract() ([][]byte, error) {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
 		if currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
-			e.elements = append(e.elements, current)
+			if !terminated || t.Pos() != end {
+				e.elements = append(e.elements, current)
+			}
 			current = []byte{}
 		} else {
 			current = append(current, t.Value()...)
 		}
+		terminated = currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR
 	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
-- 
2.43.0


From be85019c469892499e2953d0afa30dd2b1288756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 06/32] fix: element: a binary field whose length does not
 match its content is an error

---
 element/data_element.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..59c5e5a 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -452,27 +452,23 @@ func (b *BinaryDataElement) MarshalHBCI() ([]byte, error) {
 
 // UnmarshalHBCI unmarshals value into b
 func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
-	buf := bytes.NewBuffer(value)
-	r, _, err := buf.ReadRune()
-	if err != nil {
-		return err
-	}
-	if r != '@' {
+	if len(value) == 0 || value[0] != '@' {
 		return fmt.Errorf("BinaryDataElement: Malformed input")
 	}
-	binSizeStr, err := buf.ReadString('@')
-	if err != nil {
-		return err
+	sizeEnd := bytes.IndexByte(value[1:], '@')
+	if sizeEnd < 0 {
+		return fmt.Errorf("BinaryDataElement: Malformed input")
 	}
-	binSize, err := strconv.Atoi(binSizeStr[:len(binSizeStr)-1])
+	binSize, err := strconv.Atoi(string(value[1 : 1+sizeEnd]))
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
-	binData := make([]byte, binSize)
-	_, err = buf.Read(binData)
-	if err != nil {
-		return fmt.Errorf("Error while reading binary data: %T:%v", err, err)
+	data := value[sizeEnd+2:]
+	if binSize != len(data) {
+		return fmt.Errorf("BinaryDataElement: Malformed input: %d bytes announced, %d present", binSize, len(data))
 	}
+	binData := make([]byte, binSize)
+	copy(binData, data)
 	*b = BinaryDataElement{&basicDataElement{binData, binaryDE, binSize, false}}
 	return nil
 }
-- 
2.43.0


From 3f81532d8d026c0dac27967348ce78c0fb8007ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 07/32] fix: leaving out absent fields at the end does not cut
 off values ending in a delimiter

---
 element/data_element.go | 7 ++++---
 segment/segment.go      | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index 59c5e5a..8bbad4c 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,10 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..0e7dcaa 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,10 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	for len(elementBytes) > 1 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From f8c182c8f0798fabd6a60da28934a6865b5cf87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 08/32] fix: element: errors while decoding country codes,
 references and parameters are reported

---
 element/acknowledgement.go | 2 +-
 element/data_element.go    | 2 +-
 element/message.go         | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..e64dc27 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -149,7 +149,7 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
diff --git a/element/data_element.go b/element/data_element.go
index 8bbad4c..faed82c 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -699,7 +699,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..186ae71 100644
--- a/element/message.go
+++ b/element/message.go
@@ -47,6 +47,9 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-- 
2.43.0


From b3b1996e094832bc9ac4888c5e53ab42c5e51f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 09/32] fix: element: resolve escape sequences in
 acknowledgements, references and account data

---
 element/acknowledgement.go          | 8 ++++----
 element/group_data_element_group.go | 8 ++++----
 element/message.go                  | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index e64dc27..8c54914 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = unescape(charset.ToUTF8(chunks[1]))
+	acknowledgement.Text = unescape(charset.ToUTF8(chunks[2]))
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = unescape(charset.ToUTF8(chunk))
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(unescape(charset.ToUTF8(elem)), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..74bae62 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
 	return nil
 }
 
@@ -164,10 +164,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 unescape(charset.ToUTF8(elements[0])),
+		SubAccountCharacteristics: unescape(charset.ToUTF8(elements[1])),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    unescape(charset.ToUTF8(elements[3])),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 186ae71..4ed70af 100644
--- a/element/message.go
+++ b/element/message.go
@@ -53,7 +53,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := unescape(charset.ToUTF8(elements[0]))
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
-- 
2.43.0


From 2db5bada1e56abee9564dbd7bdaed2749d2a3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 10/32] fix: element: a decoded bank identification can be
 written again

---
 element/group_data_element_group.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 74bae62..2364225 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -116,6 +116,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	b.CountryCode = countryCode
 	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
-- 
2.43.0


From 1ad849c01976ddfcee3ded94323e9baf96caf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 11/32] fix: element: reject amounts and times in notations
 other than the wire format

---
 element/data_element.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index faed82c..cac4301 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -392,6 +392,9 @@ func (f *FloatDataElement) MarshalHBCI() ([]byte, error) {
 // UnmarshalHBCI unmarshals value into f
 func (f *FloatDataElement) UnmarshalHBCI(value []byte) error {
 	str := strings.Replace(charset.ToUTF8(value), ",", ".", 1)
+	if strings.Trim(str, "-.0123456789") != "" {
+		return fmt.Errorf("FloatDataElement: Malformed input")
+	}
 	val, err := strconv.ParseFloat(str, 64)
 	if err != nil {
 		return err
@@ -634,6 +637,9 @@ func (t *TimeDataElement) MarshalHBCI() ([]byte, error) {
 
 // UnmarshalHBCI unmarshals value into t
 func (t *TimeDataElement) UnmarshalHBCI(value []byte) error {
+	if len(value) != 6 {
+		return fmt.Errorf("TimeDataElement: Malformed input")
+	}
 	parsedTime, err := time.Parse("150405", charset.ToUTF8(value))
 	if err != nil {
 		return err
-- 
2.43.0


From d1a6ba326d6f66b3f36d2349391621beedefb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 12/32] fix: element: numbers carry no sign and amounts no
 decimal point

---
 element/acknowledgement.go          |  3 +--
 element/data_element.go             | 17 +++++++++++++----
 element/group_data_element_group.go |  3 +--
 element/message.go                  |  3 +--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 8c54914..c708eb1 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -2,7 +2,6 @@ package element
 
 import (
 	"fmt"
-	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
 	"github.com/mitch000001/go-hbci/domain"
@@ -104,7 +103,7 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 	if len(chunks) < 3 {
 		return fmt.Errorf("malformed acknowledgment to unmarshal")
 	}
-	code, err := strconv.Atoi(charset.ToUTF8(chunks[0]))
+	code, err := parseDigits(chunks[0])
 	if err != nil {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
diff --git a/element/data_element.go b/element/data_element.go
index cac4301..9a2d5d1 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -301,6 +301,15 @@ func (a *TextDataElement) UnmarshalHBCI(value []byte) error {
 	return nil
 }
 
+// parseDigits reads a number which, as the wire format demands, carries no sign
+func parseDigits(value []byte) (int, error) {
+	str := charset.ToUTF8(value)
+	if strings.Trim(str, "0123456789") != "" {
+		return 0, fmt.Errorf("malformed number: %q", str)
+	}
+	return strconv.Atoi(str)
+}
+
 // NewDigit returns a new DigitDataElement
 func NewDigit(val, maxLength int) *DigitDataElement {
 	return &DigitDataElement{&basicDataElement{val, digitDE, maxLength, false}}
@@ -326,7 +335,7 @@ func (d *DigitDataElement) MarshalHBCI() ([]byte, error) {
 
 // UnmarshalHBCI unmarshals value into d
 func (d *DigitDataElement) UnmarshalHBCI(value []byte) error {
-	val, err := strconv.Atoi(charset.ToUTF8(value))
+	val, err := parseDigits(value)
 	if err != nil {
 		return err
 	}
@@ -354,7 +363,7 @@ func (n *NumberDataElement) MarshalHBCI() ([]byte, error) {
 
 // UnmarshalHBCI unmarshals value into n
 func (n *NumberDataElement) UnmarshalHBCI(value []byte) error {
-	val, err := strconv.Atoi(charset.ToUTF8(value))
+	val, err := parseDigits(value)
 	if err != nil {
 		return err
 	}
@@ -392,7 +401,7 @@ func (f *FloatDataElement) MarshalHBCI() ([]byte, error) {
 // UnmarshalHBCI unmarshals value into f
 func (f *FloatDataElement) UnmarshalHBCI(value []byte) error {
 	str := strings.Replace(charset.ToUTF8(value), ",", ".", 1)
-	if strings.Trim(str, "-.0123456789") != "" {
+	if bytes.IndexByte(value, '.') >= 0 || strings.Trim(str, "-.0123456789") != "" {
 		return fmt.Errorf("FloatDataElement: Malformed input")
 	}
 	val, err := strconv.ParseFloat(str, 64)
@@ -463,7 +472,7 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if sizeEnd < 0 {
 		return fmt.Errorf("BinaryDataElement: Malformed input")
 	}
-	binSize, err := strconv.Atoi(string(value[1 : 1+sizeEnd]))
+	binSize, err := parseDigits(value[1 : 1+sizeEnd])
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 2364225..e6c710d 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"math"
-	"strconv"
 	"time"
 
 	"github.com/mitch000001/go-hbci/charset"
@@ -160,7 +159,7 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 4 {
 		return fmt.Errorf("malformed AccountConnection")
 	}
-	countryCode, err := strconv.Atoi(charset.ToUTF8(elements[2]))
+	countryCode, err := parseDigits(elements[2])
 	if err != nil {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
diff --git a/element/message.go b/element/message.go
index 4ed70af..a6245a6 100644
--- a/element/message.go
+++ b/element/message.go
@@ -2,7 +2,6 @@ package element
 
 import (
 	"fmt"
-	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
 	"github.com/mitch000001/go-hbci/domain"
@@ -54,7 +53,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("malformed marshaled value")
 	}
 	dialogID := unescape(charset.ToUTF8(elements[0]))
-	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
+	num, err := parseDigits(elements[1])
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
 	}
-- 
2.43.0


From 5b01746f960b4d0d7b9614847a33e8eea04d8a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 13/32] fix: element: segment headers without identifier, stale
 or missing references

---
 element/segment_header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/element/segment_header.go b/element/segment_header.go
index 565ca58..e8bb719 100644
--- a/element/segment_header.go
+++ b/element/segment_header.go
@@ -42,7 +42,7 @@ func (s *SegmentHeader) SetPosition(pos int) {
 
 // SetReference sets the reference to another segment
 func (s *SegmentHeader) SetReference(ref int) {
-	*s.Ref = *NewNumber(ref, 3)
+	s.Ref = NewNumber(ref, 3)
 }
 
 // ReferencingSegment returns the reference number of the referenced segment
@@ -78,7 +78,7 @@ func (s *SegmentHeader) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 3 {
+	if len(elements) < 3 || len(elements[0]) == 0 {
 		return fmt.Errorf("malformed segment header")
 	}
 	s.DataElement = NewDataElementGroup(segmentHeaderDEG, 4, s)
@@ -103,6 +103,7 @@ func (s *SegmentHeader) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("malformed segment header version: %v", err)
 		}
 	}
+	s.Ref = nil
 	if len(elements) > 3 && len(elements[3]) > 0 {
 		s.Ref = &NumberDataElement{}
 		err = s.Ref.UnmarshalHBCI(elements[3])
-- 
2.43.0


From 4fd0eb71fd83d40f0d6be244dc6f91b75b1314fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 14/32] fix: iban: reject texts that are too short or contain
 other than letters and digits

---
 iban/iban.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..04de274 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -39,6 +39,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if !alphanumeric(countryCode) || !alphanumeric(BBAN) {
+		return "", fmt.Errorf("malformed IBAN: must consist of letters and digits")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
@@ -69,6 +72,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < 4 {
+		return "", fmt.Errorf("malformed IBAN: too short")
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -115,7 +121,7 @@ func (i IBAN) ProofNumber() string {
 
 // Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < 5 || len(i) > maxAllowedIBANLength || !alphanumeric(string(i)) {
 		return false
 	}
 	countryCode := i.CountryCode()
@@ -154,6 +160,17 @@ func Print(iban IBAN) string {
 	return strings.TrimSpace(out.String())
 }
 
+// alphanumeric returns true if s consists only of ASCII letters and digits
+func alphanumeric(s string) bool {
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if (c < '0' || c > '9') && (c < 'A' || c > 'Z') && (c < 'a' || c > 'z') {
+			return false
+		}
+	}
+	return true
+}
+
 func transformLettersToDigits(letters string) string {
 	var replaced []string
 	for k, v := range alphaToDigit {
-- 
2.43.0


From a24fe05f9277a0db8f9ea811d0b8dd951e8c58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 15/32] fix: domain: write dates and timeframes in their own
 text and JSON form when given by value

---
 domain/time.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..d143d52 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -25,7 +25,7 @@ func Date(year int, month time.Month, day int, location *time.Location) ShortDat
 }
 
 // MarshalJSON marshals the date into a JSON representation
-func (s *ShortDate) MarshalJSON() ([]byte, error) {
+func (s ShortDate) MarshalJSON() ([]byte, error) {
 	if s.IsZero() {
 		return json.Marshal("")
 	}
@@ -45,7 +45,7 @@ func (s *ShortDate) String() string {
 }
 
 // MarshalText marshals the date into a byte representation
-func (s *ShortDate) MarshalText() ([]byte, error) {
+func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
@@ -100,7 +100,7 @@ func (tf *Timeframe) ToQuery() url.Values {
 }
 
 // MarshalJSON marhsals the timeframe into a JSON string
-func (tf *Timeframe) MarshalJSON() ([]byte, error) {
+func (tf Timeframe) MarshalJSON() ([]byte, error) {
 	if tf.StartDate.IsZero() || tf.EndDate.IsZero() {
 		return json.Marshal("")
 	}
-- 
2.43.0


From 0009043f6ca106b7021cc829894895f7e41e69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 16/32] fix: domain: read the JSON form of the zero date back

---
 domain/time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/domain/time.go b/domain/time.go
index d143d52..b7ff971 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -32,8 +32,13 @@ func (s ShortDate) MarshalJSON() ([]byte, error) {
 	return json.Marshal(s.Format("2006-01-02"))
 }
 
-// UnmarshalJSON unmarshals the JSON representation into a date
+// UnmarshalJSON unmarshals the JSON representation into a date. The empty
+// string represents the zero date.
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
+	if string(data) == `""` {
+		*s = ShortDate{}
+		return nil
+	}
 	unquotedData, _ := strconv.Unquote(string(data))
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
-- 
2.43.0


From 90bcadd23407ede41c4d3fa872f0d567d7a1633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 17/32] fix: segment: reject segments without any element

---
 segment/element_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index 2073e1d..d7fb1b3 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -36,6 +36,9 @@ func (e *elementExtractor) Extract() ([][]byte, error) {
 			current = append(current, t.Value()...)
 		}
 	}
+	if len(e.elements) == 0 {
+		return nil, fmt.Errorf("%T: malformed segment: no elements (%q)", e, e.rawSegment)
+	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
 	return result, nil
-- 
2.43.0


From 3d4607d50e3b774f0683ea6ad0ea802db2b0be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 18/32] fix: element: reject truncated TAN submission and
 PIN/TAN transaction parameters

---
 element/bank_parameter_data.go | 3 +++
 element/tan.go                 | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..b83f852 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,6 +283,9 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
diff --git a/element/tan.go b/element/tan.go
index 9209400..086c9d6 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -81,6 +81,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 3 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From 9a670b609e656d3c02893020b6d2db3a7a1350c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 19/32] fix: element: decode account limits

---
 element/user_parameter_data.go | 55 +++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..68fbdc1 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,11 +35,58 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	limit := domain.AccountLimit{}
+	if a.Kind != nil {
+		limit.Kind = a.Kind.Val()
+	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	a.Kind, a.Amount, a.Days, err = unmarshalLimit(elements)
+	return err
+}
+
+// unmarshalLimit unmarshals the elements of a limit. The amount takes two
+// elements, its value and its currency. Absent parts of the limit are nil.
+func unmarshalLimit(elements [][]byte) (*AlphaNumericDataElement, *AmountDataElement, *NumberDataElement, error) {
+	var kind *AlphaNumericDataElement
+	var amount *AmountDataElement
+	var days *NumberDataElement
+	if len(elements) > 0 && len(elements[0]) > 0 {
+		kind = &AlphaNumericDataElement{}
+		if err := kind.UnmarshalHBCI(elements[0]); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		if len(elements) < 3 {
+			return nil, nil, nil, fmt.Errorf("malformed limit: amount without currency")
+		}
+		amount = &AmountDataElement{}
+		if err := amount.UnmarshalHBCI(bytes.Join(elements[1:3], []byte(":"))); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		days = &NumberDataElement{}
+		if err := days.UnmarshalHBCI(elements[3]); err != nil {
+			return nil, nil, nil, err
+		}
 	}
+	return kind, amount, days, nil
 }
 
 // GroupDataElements returns the grouped DataElements
-- 
2.43.0


From 63a600c1210c92d3b84803dacdacfb79fd6ec7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 20/32] fix: element: decode the limits of allowed business
 transactions

---
 element/user_parameter_data.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 68fbdc1..e4547dd 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -197,28 +197,8 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 	if err != nil {
 		return err
 	}
-	if len(elements) > 2 && len(elements[2]) > 0 {
-		a.Kind = &AlphaNumericDataElement{}
-		err = a.Kind.UnmarshalHBCI(elements[2])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 3 && len(elements[3]) > 0 {
-		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
-		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	a.Kind, a.Amount, a.Days, err = unmarshalLimit(elements[2:])
+	return err
 }
 
 // Val returns the allowed business transaction
-- 
2.43.0


From 0bed49a6fdcc4050758d4a8cb4056864eedacabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 21/32] fix: element: decode certificates instead of crashing

---
 element/signature.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/element/signature.go b/element/signature.go
index b134dda..ec11e16 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -422,6 +422,25 @@ type CertificateDataElement struct {
 	Content         *BinaryDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	c.CertificateType = &NumberDataElement{}
+	err = c.CertificateType.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	c.Content = &BinaryDataElement{}
+	return c.Content.UnmarshalHBCI(elements[1])
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CertificateDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
-- 
2.43.0


From 82b544ac2b37dad8cc62c60b57f6dc2fafc26a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 22/32] fix: element: decode communication parameters instead
 of crashing

---
 element/communication_access.go | 50 ++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..07c8f7b 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,10 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -45,6 +49,50 @@ type CommunicationParameterDataElement struct {
 	FilterFunctionVersion *NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	c.Protocol = &NumberDataElement{}
+	err = c.Protocol.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	c.Address = &AlphaNumericDataElement{}
+	err = c.Address.UnmarshalHBCI(elements[1])
+	if err != nil {
+		return err
+	}
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = &AlphaNumericDataElement{}
+		err = c.AddressAddition.UnmarshalHBCI(elements[2])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = &AlphaNumericDataElement{}
+		err = c.FilterFunction.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		err = c.FilterFunctionVersion.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
-- 
2.43.0


From afc8731481ae0caf75453ce800bbf24037b656f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 23/32] fix: element: decode supported compression methods
 instead of crashing

---
 element/bank_parameter_data.go | 20 ++++++++++++++++++++
 element/data_element_type.go   |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index b83f852..130c75b 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -186,6 +186,26 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value into the
+// SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &NumberDataElement{}
+		err := method.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodsDEG, 1, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..7a683b7 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,7 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	supportedCompressionMethodsDEG
 )
 
 var typeName = map[DataElementType]string{
@@ -118,6 +119,7 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
+	supportedCompressionMethodsDEG:        "Unterstützte Komprimierungsverfahren",
 }
 
 func (d DataElementType) String() string {
-- 
2.43.0


From a2708d8225b18be780a19deb6ae764091622eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 24/32] fix: element: decode supported security methods instead
 of crashing

---
 element/bank_parameter_data.go | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 130c75b..d71c2c9 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -42,10 +42,29 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 	}
 }
 
-// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
+// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement.
+// If value carries more than one method, only the first one is read.
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	method := bytes.SplitN(value, []byte("+"), 2)[0]
+	elements, err := ExtractElements(method)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	s.MethodCode = &AlphaNumericDataElement{}
+	err = s.MethodCode.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	err = s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":")))
+	if err != nil {
+		return err
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	return nil
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +91,24 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 || len(elements) > 9 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		err := version.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
-- 
2.43.0


From a49361a67e10bc47a584ccaf03c1f93786175cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 25/32] fix: element: decode PIN/TAN signatures and virtual
 dates instead of crashing

---
 element/data_element.go | 11 +++++++++++
 element/pin.go          | 15 +++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index 9a2d5d1..543fe56 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -614,6 +614,17 @@ type VirtualDateDataElement struct {
 	*NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into v
+func (v *VirtualDateDataElement) UnmarshalHBCI(value []byte) error {
+	n := &NumberDataElement{}
+	err := n.UnmarshalHBCI(value)
+	if err != nil {
+		return err
+	}
+	*v = *NewVirtualDate(n.Val())
+	return nil
+}
+
 // Valid returns true if the length of v is 8, false otherwise
 func (v *VirtualDateDataElement) Valid() bool {
 	return v.Length() == 8
diff --git a/element/pin.go b/element/pin.go
index bd837e4..8915a5c 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,17 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the CustomSignatureDataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	pinTan := &PinTanDataElement{}
+	err := pinTan.UnmarshalHBCI(value)
+	if err != nil {
+		return err
+	}
+	c.PinTanDataElement = pinTan
+	return nil
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
@@ -64,10 +75,10 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
 	if len(elements) > 0 && len(elements[0]) > 0 {
 		p.PIN = &AlphaNumericDataElement{}
 		err = p.PIN.UnmarshalHBCI(elements[0])
-- 
2.43.0


From e769a47e1412dc076555352e70fc2803407120ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 26/32] fix: message: reject messages without HBCI version or
 encrypted data

---
 message/decryption.go | 3 +++
 message/encryption.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..6aa161c 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -28,6 +28,9 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 			panic(fmt.Errorf("Error while unmarshaling segments"))
 		}
 	}
+	if header.HBCIVersion == nil {
+		return nil, fmt.Errorf("Malformed message header: HBCI version missing")
+	}
 	version, ok := segment.SupportedHBCIVersions[header.HBCIVersion.Val()]
 	if !ok {
 		return nil, fmt.Errorf("Unsupported HBCI version: %d", header.HBCIVersion.Val())
diff --git a/message/encryption.go b/message/encryption.go
index 65cea40..e514d1b 100644
--- a/message/encryption.go
+++ b/message/encryption.go
@@ -2,6 +2,7 @@ package message
 
 import (
 	"crypto/rand"
+	"fmt"
 
 	"github.com/mitch000001/go-hbci/segment"
 )
@@ -50,6 +51,9 @@ func (e *EncryptedMessage) HBCISegments() []segment.ClientSegment {
 
 // Decrypt decrypts the message using the CryptoProvider
 func (e *EncryptedMessage) Decrypt(provider CryptoProvider) (BankMessage, error) {
+	if e.EncryptedData == nil || e.EncryptedData.Data == nil {
+		return nil, fmt.Errorf("Malformed encrypted message: encrypted data missing")
+	}
 	decryptedMessageBytes, err := provider.Decrypt(e.EncryptedData.Data.Val())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 643a3266de642c5adf6978ca6170224cb77e4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 27/32] fix: element: decode the persons of an account
 information response instead of crashing

---
 element/account.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/element/account.go b/element/account.go
index ef118f5..8016091 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,6 +5,26 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into d, keeping the texts that describe the
+// persons in the order in which they appear
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	persons := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		person := &AlphaNumericDataElement{}
+		err := person.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		persons[i] = person
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, len(persons), persons)
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
-- 
2.43.0


From 5772b24e76e098fb802d61b1e2c6e2d4917921b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 28/32] fix: transport: reject request bodies ending in an
 incomplete character

The encoding writer keeps an incomplete trailing character back and was never
closed, so it was silently dropped from the body.
---
 transport/middleware/encoding.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/transport/middleware/encoding.go b/transport/middleware/encoding.go
index fa37b21..2527ffc 100644
--- a/transport/middleware/encoding.go
+++ b/transport/middleware/encoding.go
@@ -18,14 +18,16 @@ import (
 func UTF8Encoding(encoding encoding.Encoding) transport.Middleware {
 	return func(t transport.Transport) transport.Transport {
 		return transport.Func(func(req *transport.Request) (*transport.Response, error) {
-			var buf bytes.Buffer
-			encodingWriter := encoding.NewEncoder().Writer(&buf)
-			_, err := io.Copy(encodingWriter, req.Body)
+			body, err := io.ReadAll(req.Body)
+			if err != nil {
+				return nil, err
+			}
+			encodedBody, err := encoding.NewEncoder().Bytes(body)
 			if err != nil {
 				return nil, err
 			}
 			encodedRequest := req
-			encodedRequest.Body = io.NopCloser(&buf)
+			encodedRequest.Body = io.NopCloser(bytes.NewReader(encodedBody))
 			response, err := t.Do(encodedRequest)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From a807ecca39b41983fbfdf74b697870639c149ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 29/32] fix: transport: report bodies that cannot be read
 instead of forwarding a part of them

---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From cfd19cfcf3aac69dd4df03a89c810887e6253d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 30/32] fix: segment: build status protocol requests with the
 advertised version

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..d90e198 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From c94b00c9b0f076a2b77b4cc1d741f6665fdbf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 31/32] fix: segment: build SEPA account transaction requests
 when version 7 is advertised

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From 610d5e1590bbb1d1ace8f796e93dd4963c805c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 32/32] fix: segment: look up the versions of status protocol
 requests by the parameter segment

The institute advertises the versions in HIPROS; HIPRO is the response segment
and never part of the bank parameter data.
---
 segment/hbci_version.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
-- 
2.43.0

