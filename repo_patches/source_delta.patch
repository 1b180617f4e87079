From 45a2c46e3e92aa9d40fc10c3e8809465b6c95036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 01/70] fix: extract group elements with escaped or binary
 delimiters completely

The terminator was only added when the group contained no '+' or ''' at all,
so the last element of a group such as 'a?+b:c' was dropped.
---
 element/element_extractor.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..0140c45 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -16,16 +15,32 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
 	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
+	if !endsWithDelimiter(dataElementGroup) {
+		// never write into the spare capacity of the caller's slice
+		dataElementGroup = append(dataElementGroup[:len(dataElementGroup):len(dataElementGroup)], '+')
 	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
 }
 
+// endsWithDelimiter returns true if the last token is a data element separator
+// or a segment end marker, i.e. not an escaped one or one within binary data
+func endsWithDelimiter(dataElementGroup []byte) bool {
+	terminated := false
+	lexer := token.NewLexer("ElementExtractor", dataElementGroup)
+	for lexer.HasNext() {
+		switch t := lexer.Next(); t.Type() {
+		case token.EOF:
+		case token.ERROR:
+			return false
+		default:
+			terminated = t.Type() == token.SEGMENT_END_MARKER || t.Type() == token.DATA_ELEMENT_SEPARATOR
+		}
+	}
+	return terminated
+}
+
 // An groupExtractor extracts DataElements from DataElementGroups
 type groupExtractor struct {
 	rawDataElementGroup []byte
-- 
2.43.0


From d1c40442f70dc77a4929613dfccdeca976490fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 02/70] fix: unescape values of data element groups when
 decoding

Account connections, bank identifications, acknowledgements, message
references and PIN/TAN transaction IDs kept the escape characters.
---
 element/acknowledgement.go          | 8 ++++----
 element/bank_parameter_data.go      | 2 +-
 element/group_data_element_group.go | 9 +++++----
 element/message.go                  | 2 +-
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..6268a1e 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = unescape(charset.ToUTF8(chunks[1]))
+	acknowledgement.Text = unescape(charset.ToUTF8(chunks[2]))
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = unescape(charset.ToUTF8(chunk))
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(unescape(charset.ToUTF8(elem)), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..6729a7f 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,7 +283,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[0])), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..2364225 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,8 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
@@ -164,10 +165,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 unescape(charset.ToUTF8(elements[0])),
+		SubAccountCharacteristics: unescape(charset.ToUTF8(elements[1])),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    unescape(charset.ToUTF8(elements[3])),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..3f92ae3 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,7 +50,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := unescape(charset.ToUTF8(elements[0]))
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
-- 
2.43.0


From 31352c56b35acd794403317b8a0f6ac33d40134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 03/70] fix: report errors when reading the answer's body

The logging middleware, which is part of every dialog, only logged them and
passed on what it had read, so a truncated answer was taken for a complete one.
---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From 817c8bcad84681ba3320bf09f22082fc6ee8002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 04/70] fix: decode and unescape the texts of TAN process
 parameters

---
 element/tan.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/element/tan.go b/element/tan.go
index 9209400..4f3f7f3 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -220,19 +220,19 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	t.SecurityFunction = NewCode(iter.NextString(), 3, nil)
-	t.TanProcess = NewCode(iter.NextString(), 1, []string{"1", "2"})
-	t.TechnicalIDTanProcess = NewIdentification(iter.NextString())
-	t.ZKATanProcess = NewAlphaNumeric(iter.NextString(), 32)
-	t.ZKATanProcessVersion = NewAlphaNumeric(iter.NextString(), 10)
-	t.TwoStepProcessName = NewAlphaNumeric(iter.NextString(), 30)
+	t.SecurityFunction = NewCode(unescape(charset.ToUTF8(iter.Next())), 3, nil)
+	t.TanProcess = NewCode(unescape(charset.ToUTF8(iter.Next())), 1, []string{"1", "2"})
+	t.TechnicalIDTanProcess = NewIdentification(unescape(charset.ToUTF8(iter.Next())))
+	t.ZKATanProcess = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 32)
+	t.ZKATanProcessVersion = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 10)
+	t.TwoStepProcessName = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 30)
 	var twoStepProcessMaxInputValue NumberDataElement
 	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
 	}
 	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
 	t.TwoStepProcessAllowedFormat = NewCode(iter.NextString(), 1, nil)
-	t.TwoStepProcessReturnValueText = NewAlphaNumeric(iter.NextString(), 30)
+	t.TwoStepProcessReturnValueText = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 30)
 	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
 	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
-- 
2.43.0


From 880d14b176bf73de0fac4996c3a4cb170a57bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 05/70] fix: start the synchronisation in a dialog of its own

A second synchronisation continued the message numbers and the ID of the
previous dialog, signed with the old client system ID, and when it failed left
the providers with the initial client system ID.
---
 dialog/dialog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..264d46f 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,9 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
+	d.signatureProvider.SetClientSystemID(initialClientSystemID)
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
@@ -342,6 +345,8 @@ func (d *dialog) init() error {
 		}
 		d.ClientSystemID = id
 	}
+	// a failed synchronisation leaves the providers with the initial ID
+	d.SetClientSystemID(d.ClientSystemID)
 	d.dialogID = initialDialogID
 	d.messageCount = 0
 	initMessage := message.NewDialogInitializationClientMessage(d.hbciVersion)
-- 
2.43.0


From 819800c8f3f661c365e806e86ac42e0cb66de66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 06/70] fix: keep the security function when the PIN is set

---
 dialog/pin_tan_dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..bd13c54 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,8 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		// the new providers start with the one step security function
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From 65f880e23997e776aea1a9fbfa7c5baf93fd0251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 07/70] fix: replace the accounts when user parameter data are
 delivered again

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 264d46f..939bda5 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -577,6 +577,10 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
+	if userParamData != nil || len(accountData) > 0 {
+		// the delivered user parameter data replace the stored ones
+		d.Accounts = make([]domain.AccountInformation, 0, len(accountData))
+	}
 	for _, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
 		d.Accounts = append(d.Accounts, infoSegment.Account())
-- 
2.43.0


From 390bf16c75eb1641e554c40f046bc8497a5767d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 08/70] fix: report malformed binary lengths instead of
 panicking

---
 token/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..c4cd24d 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -208,7 +208,7 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	binaryLengthStart := l.pos
 	l.acceptRun(digits)
 	binaryLengthEnd := l.pos
-	if binaryLengthEnd == binaryLengthStart {
+	if binaryLengthEnd <= binaryLengthStart {
 		return l.errorf("Binary length can't be empty")
 	}
 	lengthBytes := l.input[binaryLengthStart:binaryLengthEnd]
@@ -219,6 +219,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From bb3da32a5b45e272db36f1cec76dabf41d7793a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 09/70] fix: reject NUL characters between elements instead of
 dropping the rest

---
 token/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/lexer.go b/token/lexer.go
index c4cd24d..5f3f478 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -160,6 +160,8 @@ func lexStart(l *Lexer) LexerStateFn {
 	case r == binaryIdentifier:
 		l.backup()
 		return lexBinaryData
+	case r == eof && l.pos > l.start:
+		return l.errorf("Unexpected NUL character")
 	case r == eof:
 		// Correctly reached EOF.
 		l.emit(EOF)
-- 
2.43.0


From 33758566d0570628b6fa4ee69bbb86553e5d867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 10/70] fix: reject messages whose last segment is not
 terminated

---
 message/segment_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..1281488 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -36,6 +36,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: SyntaxError: segment not terminated: %q\n(%q)", s, current, s.rawMessage)
+	}
 	result := make([][]byte, len(s.segments))
 	copy(result, s.segments)
 	return result, nil
-- 
2.43.0


From 9c94e120ba7eca62cb18a4899df8d939bb3b8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 11/70] fix: keep escaped and binary delimiters at the end of a
 group or segment

---
 element/data_element.go | 8 +++++---
 segment/segment.go      | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..929e53b 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,11 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// omit trailing empty elements, but never a delimiter which is part of a value
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..34015fe 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,11 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	// omit trailing empty elements, but never a delimiter which is part of a value
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From 5e830b06d0b4e0c0581b99378e1657a89c7db956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 12/70] fix: decode the limit of allowed business transactions

---
 element/user_parameter_data.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..7760b5f 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -157,16 +157,17 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 			return err
 		}
 	}
-	if len(elements) > 3 && len(elements[3]) > 0 {
+	// the amount is embedded with its two group data elements, value and currency
+	if len(elements) > 4 && len(elements[3]) > 0 {
 		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
+		err = a.Amount.UnmarshalHBCI(bytes.Join(elements[3:5], []byte(":")))
 		if err != nil {
 			return err
 		}
 	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
+	if len(elements) > 5 && len(elements[5]) > 0 {
 		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
+		err = a.Days.UnmarshalHBCI(elements[5])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 10db135a1199c462010b22e5090c0f3b652e7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 13/70] fix: decode account limits of user parameter data

---
 element/user_parameter_data.go | 46 +++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 7760b5f..bb3f0c5 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -33,13 +33,51 @@ type AccountLimitDataElement struct {
 	Days   *NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 1 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	a.Kind = &AlphaNumericDataElement{}
+	err = a.Kind.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	// the amount is embedded with its two group data elements, value and currency
+	if len(elements) > 2 && len(elements[1]) > 0 {
+		a.Amount = &AmountDataElement{}
+		err = a.Amount.UnmarshalHBCI(bytes.Join(elements[1:3], []byte(":")))
+		if err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		a.Days = &NumberDataElement{}
+		err = a.Days.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	limit := domain.AccountLimit{
+		Kind: a.Kind.Val(),
+	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
 	}
+	return limit
 }
 
 // GroupDataElements returns the grouped DataElements
-- 
2.43.0


From 588224d6bb3780bf25bb99952a811a0d015b4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 14/70] fix: a SWIFT text of letters or digits only may
 continue on the next line

---
 token/swift_lexer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..f517359 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTextBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTextBoundary(l) { // the text continues on the next line
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof:
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTextBoundary(l) { // the text continues on the next line
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof:
@@ -163,6 +169,16 @@ func lexSwiftAlphaNumeric(l *Lexer) LexerStateFn {
 	}
 }
 
+// isTextBoundary reports whether the text read so far ends here, i.e. if it is
+// followed by a line break which does not start just another line of it.
+func isTextBoundary(l *Lexer) bool {
+	rest := l.input[l.pos:]
+	if !bytes.HasPrefix(rest, []byte(tagSeparatorSequence)) {
+		return bytes.HasPrefix(rest, []byte{carriageReturn})
+	}
+	return len(rest) == len(tagSeparatorSequence) || isTagBoundary(l)
+}
+
 func isTagBoundary(s *Lexer) bool {
 	oneOf := func(fn ...func() bool) bool {
 		for _, f := range fn {
-- 
2.43.0


From 6acbbdb7e0d379133b9b3a4019fb9c1ec4e83402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 15/70] fix: read the debit/credit mark of an MT940 line
 without booking date, and the reversal marks

---
 swift/mt940.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..4ea80bb 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -232,8 +232,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		date, err = parseDate(dateBytes, t.ValutaDate.Year())
 		if err != nil {
@@ -255,14 +255,13 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 		if unicode.IsDigit(r) {
 			buf.UnreadRune()
 			runes = runes[:len(runes)-1]
-			if len(runes) == 3 {
-				t.DebitCreditIndicator = string(runes[:2])
-				t.CurrencyKind = string(runes[2:])
-			} else if len(runes) == 2 {
-				t.DebitCreditIndicator = string(runes[:1])
-				t.CurrencyKind = string(runes[1:])
-			} else if len(runes) == 1 {
-				t.DebitCreditIndicator = string(runes)
+			markLen := 1
+			if len(runes) > 1 && runes[0] == 'R' { // reversal: RC or RD
+				markLen = 2
+			}
+			if len(runes) >= markLen && len(runes) <= markLen+1 {
+				t.DebitCreditIndicator = string(runes[:markLen])
+				t.CurrencyKind = string(runes[markLen:])
 			}
 			break
 		}
-- 
2.43.0


From da9121812fc448a9cd4a819d534afc8b00bbf536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 16/70] fix: a reversed credit reduces the balance

---
 swift/mt940.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 4ea80bb..fb95546 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -35,16 +35,17 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
 		var amount float64
-		if tr.DebitCreditIndicator == "D" {
+		switch tr.DebitCreditIndicator {
+		case "D", "RC": // debit, reversal of a credit
 			amount = -tr.Amount
-		} else {
+		default:
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
-			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
-			ValutaDate:  tr.ValutaDate.Time,
-			BookingDate: tr.BookingDate.Time,
+			Account:              accountConnection,
+			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			ValutaDate:           tr.ValutaDate.Time,
+			BookingDate:          tr.BookingDate.Time,
 			AccountBalanceBefore: domain.Balance{
 				Amount: domain.Amount{
 					Amount:   m.StartingBalance.Amount,
-- 
2.43.0


From c53095b9632f2615aadf7b303f17fdcbf16554cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 17/70] fix: overdrawn balances before and after a transaction
 are negative

---
 swift/mt940.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index fb95546..8ae8484 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -46,20 +46,8 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
 			ValutaDate:           tr.ValutaDate.Time,
 			BookingDate:          tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
-- 
2.43.0


From 01a3f7c4658453bf70ccef54bb83f54708706a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 18/70] fix: complete the MT940 booking date with the year
 closest to the value date

---
 swift/mt940.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 8ae8484..23c4d1e 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -224,15 +223,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	buf.UnreadRune()
 	if unicode.IsDigit(r) {
 		dateBytes = buf.Next(4)
-		date, err = parseDate(dateBytes, t.ValutaDate.Year())
+		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
 		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
-			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
-		}
 	}
 	var runes []rune
 	for {
@@ -296,6 +291,34 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// parseBookingDate parses a booking date, which comes without a year. It is the
+// one closest to the valuta date.
+func parseBookingDate(value []byte, valuta time.Time) (time.Time, error) {
+	var closest time.Time
+	var closestErr error
+	for _, year := range []int{valuta.Year(), valuta.Year() - 1, valuta.Year() + 1} {
+		date, err := parseDate(value, year)
+		if err != nil {
+			closestErr = err
+			continue
+		}
+		if closest.IsZero() || absDuration(date.Sub(valuta)) < absDuration(closest.Sub(valuta)) {
+			closest = date
+		}
+	}
+	if closest.IsZero() {
+		return time.Time{}, closestErr
+	}
+	return closest, nil
+}
+
+func absDuration(d time.Duration) time.Duration {
+	if d < 0 {
+		return -d
+	}
+	return d
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
-- 
2.43.0


From 90426846e5b53ac41b25de4b4df4ab3e06342045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 19/70] fix: the reference of an MT940 line ends before its
 additional information

---
 swift/mt940.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 23c4d1e..fad4e62 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -266,14 +266,15 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	doubleSlashIdx := strings.Index(remaining, "//")
 
 	if doubleSlashIdx != -1 && addInfSepIdx != -1 {
-		t.Reference = remaining[:doubleSlashIdx]
 		if doubleSlashIdx < addInfSepIdx {
+			t.Reference = remaining[:doubleSlashIdx]
 			t.BankReference = remaining[doubleSlashIdx+2 : addInfSepIdx]
 			t.AdditionalInformation = remaining[addInfSepIdx+3:]
 		} else {
 			// The only valid case in the FINTS30 documentation in the other
 			// one, but the data we receive are sometimes formatted like that
 			// :(
+			t.Reference = remaining[:addInfSepIdx]
 			t.BankReference = remaining[addInfSepIdx+3 : doubleSlashIdx]
 			t.AdditionalInformation = remaining[doubleSlashIdx+2:]
 		}
-- 
2.43.0


From 2ef0922eda286e9675327420ce854f8dc1d4419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 20/70] fix: 29 and 30 February of a bank calendar keep the
 year they come with

---
 swift/mt940.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index fad4e62..7bf8038 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -331,11 +331,15 @@ func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	dateString := yearBegin + string(value)
 	date, err := time.Parse("20060102", dateString)
 	if err != nil {
-		if strings.HasSuffix(dateString, "0229") {
-			return time.Date(referenceYear, 2, 29, 0, 0, 0, 0, time.UTC), nil
+		var year int
+		if len(dateString) == 8 {
+			year, _ = strconv.Atoi(dateString[:4])
 		}
-		if strings.HasSuffix(dateString, "0230") {
-			return time.Date(referenceYear, 2, 30, 0, 0, 0, 0, time.UTC), nil
+		if year > 0 && strings.HasSuffix(dateString, "0229") {
+			return time.Date(year, 2, 29, 0, 0, 0, 0, time.UTC), nil
+		}
+		if year > 0 && strings.HasSuffix(dateString, "0230") {
+			return time.Date(year, 2, 30, 0, 0, 0, 0, time.UTC), nil
 		}
 		return time.Time{}, err
 	}
-- 
2.43.0


From b1be99e4cb9e26c7de1003901368d4a6b5c738a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 21/70] fix: report a damaged MT940 statement instead of
 panicking

---
 swift/mt940_unmarshaler.go | 6 ++++++
 swift/unmarshal.go         | 1 +
 2 files changed, 7 insertions(+)

diff --git a/swift/mt940_unmarshaler.go b/swift/mt940_unmarshaler.go
index 14b7db8..9ddce8f 100644
--- a/swift/mt940_unmarshaler.go
+++ b/swift/mt940_unmarshaler.go
@@ -104,6 +104,12 @@ func (m *MT940) Unmarshal(value []byte) error {
 			return fmt.Errorf("malformed marshaled value")
 		}
 	}
+	if m.Account == nil {
+		return errors.New("malformed marshaled value: account tag missing")
+	}
+	if len(m.Transactions) != 0 && (m.StartingBalance == nil || m.ClosingBalance == nil) {
+		return errors.New("malformed marshaled value: balance tag missing")
+	}
 
 	return nil
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..2eecc70 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -88,6 +88,7 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
-- 
2.43.0


From 4137cc562009beb3a3c3335279695b65b26517d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 22/70] fix: no statements are no transactions

---
 swift/unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 2eecc70..acb32ec 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -76,6 +76,9 @@ func NewMT940MessagesUnmarshaler() MT940Unmarshaler {
 type mt940MessagesUnmarshaler struct{}
 
 func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.AccountTransaction, error) {
+	if len(value) == 0 { // no statements, e.g. no bookings in the timeframe
+		return nil, nil
+	}
 	messageExtractor := NewMessageExtractor(value)
 	messages, err := messageExtractor.Extract()
 	if err != nil {
-- 
2.43.0


From 6aba08f47c3c3f471c24417d02f47a61fd6f8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 23/70] fix: accept the opening balance of the first statement,
 which has no date

---
 swift/mt940.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 7bf8038..f4a4d65 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -162,12 +162,17 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	b.Tag = string(elements[0])
 	buf := bytes.NewBuffer(elements[1])
 	b.DebitCreditIndicator = string(buf.Next(1))
-	dateBytes := buf.Next(6)
-	date, err := parseDate(dateBytes, time.Now().Year())
-	if err != nil {
-		return errors.WithMessage(err, "unmarshal balance tag: parsing booking date")
+	if rest := buf.Bytes(); len(rest) > 1 && rest[0] == '0' && !unicode.IsDigit(rune(rest[1])) {
+		// first statement of an account, there is no booking date yet
+		buf.Next(1)
+	} else {
+		dateBytes := buf.Next(6)
+		date, err := parseDate(dateBytes, time.Now().Year())
+		if err != nil {
+			return errors.WithMessage(err, "unmarshal balance tag: parsing booking date")
+		}
+		b.BookingDate = domain.NewShortDate(date)
 	}
-	b.BookingDate = domain.NewShortDate(date)
 	b.Currency = string(buf.Next(3))
 	amountString := strings.Replace(buf.String(), ",", ".", 1)
 	amount, err := strconv.ParseFloat(amountString, 64)
-- 
2.43.0


From c60249e620048abcb765484b67807796a83f0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 24/70] fix: descriptions of an MT940 transaction may be
 unstructured text, and damaged ones do not panic

---
 swift/element.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/swift/element.go b/swift/element.go
index c2a91f2..1905b39 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -3,6 +3,7 @@ package swift
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
@@ -150,6 +151,14 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if !startsWithTransactionID(tag.Value) {
+		// unstructured text
+		text := bytes.Replace(tag.Value, []byte{'\r', '\n'}, []byte{}, -1)
+		if len(text) != 0 {
+			c.Purpose = append(c.Purpose, charset.ToUTF8(text))
+		}
+		return nil
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -166,6 +175,12 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		}
 	}
 
+	if len(fields) == 0 && len(marshaledFields) != 0 {
+		// unstructured text
+		c.Purpose = append(c.Purpose, charset.ToUTF8(marshaledFields))
+	}
+	sort.SliceStable(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
+
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
 			marshaledFields[currentFieldKeyIndex+3 : nextFieldKeyIndex],
@@ -211,6 +226,19 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// startsWithTransactionID reports whether value starts with a transaction code
+func startsWithTransactionID(value []byte) bool {
+	if len(value) < 3 {
+		return false
+	}
+	for _, b := range value[:3] {
+		if b < '0' || b > '9' {
+			return false
+		}
+	}
+	return true
+}
+
 type fieldKeyIndex struct {
 	fieldKey []byte
 	index    int
-- 
2.43.0


From bbd8c50aca1092d85e638053beed6ffda8fa61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 25/70] fix: additional information of an MT940 line may start
 with a slash

---
 swift/mt940.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swift/mt940.go b/swift/mt940.go
index f4a4d65..41f7fbc 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -270,6 +270,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	addInfSepIdx := strings.Index(remaining, "\r\n/")
 	doubleSlashIdx := strings.Index(remaining, "//")
 
+	if addInfSepIdx != -1 && doubleSlashIdx == addInfSepIdx+2 {
+		// the slash belongs to the additional information
+		doubleSlashIdx = -1
+	}
+
 	if doubleSlashIdx != -1 && addInfSepIdx != -1 {
 		if doubleSlashIdx < addInfSepIdx {
 			t.Reference = remaining[:doubleSlashIdx]
-- 
2.43.0


From 2580b3c8591499035a5b7d98a67ac3346ae38f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 26/70] fix: pad German account numbers of any length to ten
 digits

---
 iban/iban.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..4b435fd 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -25,7 +25,7 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
+	for len(accountID) < germanAccountIDLength {
 		accountID = "0" + accountID
 	}
 
-- 
2.43.0


From ed8921b1ec41e83b1fbe490828ac00791ce143dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 27/70] fix: short input is no IBAN and does not panic

---
 iban/iban.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 4b435fd..ae53dab 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -9,6 +9,7 @@ import (
 
 const countryDE = "DE"
 const germanAccountIDLength = 10
+const minIBANLength = 5
 const maxAllowedIBANLength = 34
 
 // IsValid validates the IBAN for its proof number
@@ -69,6 +70,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < minIBANLength {
+		return "", fmt.Errorf("malformed IBAN: must have at least %d characters", minIBANLength)
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -88,34 +92,45 @@ type IBAN string
 
 // BBAN returns the BBAN, that is, the bank account identifier
 func (i IBAN) BBAN() string {
-	return string(i[4:])
+	return i.slice(4, len(i))
 }
 
 // BankID returns the parts of the IBAN which refer to the bank institute ID
 func (i IBAN) BankID() string {
-	return string(i[4:12])
+	return i.slice(4, 12)
 }
 
 // AccountID returns the parts of the IBAN which refer to the AccountID
 func (i IBAN) AccountID() string {
-	accountID := string(i[12:])
+	accountID := i.slice(12, len(i))
 	return strings.TrimLeft(accountID, "0")
 }
 
 // CountryCode returns the country code used by the IBAN.
 // The country code is defined by ISO 3166-1 alpha-2
 func (i IBAN) CountryCode() string {
-	return string(i[:2])
+	return i.slice(0, 2)
 }
 
 // ProofNumber returns the used number to make a sanity check whether the IBAN is valid or not.
 func (i IBAN) ProofNumber() string {
-	return string(i[2:4])
+	return i.slice(2, 4)
 }
 
 // Valid returns true if the IBAN is valid, false otherwise
+// slice returns the part of i between from and to, as far as i reaches.
+func (i IBAN) slice(from, to int) string {
+	if to > len(i) {
+		to = len(i)
+	}
+	if from > to {
+		return ""
+	}
+	return string(i[from:to])
+}
+
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < minIBANLength || len(i) > maxAllowedIBANLength {
 		return false
 	}
 	countryCode := i.CountryCode()
-- 
2.43.0


From d06dd3b62982704aadac6986470afd21f75764ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 28/70] fix: an IBAN consists of a country code of letters,
 digits and letters

---
 iban/iban.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/iban/iban.go b/iban/iban.go
index ae53dab..cdab7a3 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -40,6 +40,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if !consistsOf(countryCode, isLetter) {
+		return "", fmt.Errorf("malformed countryCode: must consist of letters")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
@@ -53,6 +56,10 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen)
 	}
 
+	if !consistsOf(BBAN, isLetterOrDigit) {
+		return "", fmt.Errorf("malformed BBAN: must consist of letters and digits")
+	}
+
 	BBAN = strings.ToUpper(BBAN)
 
 	step1 := fmt.Sprintf("%s%s00", transformLettersToDigits(BBAN), transformLettersToDigits(countryCode))
@@ -133,6 +140,9 @@ func (i IBAN) Valid() bool {
 	if len(i) < minIBANLength || len(i) > maxAllowedIBANLength {
 		return false
 	}
+	if !consistsOf(i.CountryCode(), isLetter) || !consistsOf(i.ProofNumber(), isDigit) || !consistsOf(i.BBAN(), isLetterOrDigit) {
+		return false
+	}
 	countryCode := i.CountryCode()
 	countryCode = strings.ToUpper(countryCode)
 	bban := i.BBAN()
@@ -169,6 +179,27 @@ func Print(iban IBAN) string {
 	return strings.TrimSpace(out.String())
 }
 
+func isDigit(b byte) bool {
+	return '0' <= b && b <= '9'
+}
+
+func isLetter(b byte) bool {
+	return 'A' <= b && b <= 'Z' || 'a' <= b && b <= 'z'
+}
+
+func isLetterOrDigit(b byte) bool {
+	return isLetter(b) || isDigit(b)
+}
+
+func consistsOf(s string, allowed func(byte) bool) bool {
+	for i := 0; i < len(s); i++ {
+		if !allowed(s[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 func transformLettersToDigits(letters string) string {
 	var replaced []string
 	for k, v := range alphaToDigit {
-- 
2.43.0


From 2077af4ce4e194529ed00cea22aafee6dd28a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 29/70] fix: dates and timeframes keep their JSON and text form
 when passed by value

---
 domain/time.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..231db68 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -25,7 +25,7 @@ func Date(year int, month time.Month, day int, location *time.Location) ShortDat
 }
 
 // MarshalJSON marshals the date into a JSON representation
-func (s *ShortDate) MarshalJSON() ([]byte, error) {
+func (s ShortDate) MarshalJSON() ([]byte, error) {
 	if s.IsZero() {
 		return json.Marshal("")
 	}
@@ -40,12 +40,12 @@ func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	return err
 }
 
-func (s *ShortDate) String() string {
+func (s ShortDate) String() string {
 	return s.Format("2006-01-02")
 }
 
 // MarshalText marshals the date into a byte representation
-func (s *ShortDate) MarshalText() ([]byte, error) {
+func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
@@ -92,7 +92,7 @@ func TimeframeFromQuery(params url.Values) (Timeframe, error) {
 
 // ToQuery transforms a timeframe to a query. The param keys are
 // `from` for the StartDate and `to` for the EndDate
-func (tf *Timeframe) ToQuery() url.Values {
+func (tf Timeframe) ToQuery() url.Values {
 	params := make(url.Values)
 	params.Set("from", tf.StartDate.Format("20060102"))
 	params.Set("to", tf.EndDate.Format("20060102"))
@@ -100,7 +100,7 @@ func (tf *Timeframe) ToQuery() url.Values {
 }
 
 // MarshalJSON marhsals the timeframe into a JSON string
-func (tf *Timeframe) MarshalJSON() ([]byte, error) {
+func (tf Timeframe) MarshalJSON() ([]byte, error) {
 	if tf.StartDate.IsZero() || tf.EndDate.IsZero() {
 		return json.Marshal("")
 	}
@@ -129,10 +129,10 @@ func (tf *Timeframe) UnmarshalJSON(data []byte) error {
 
 // IsZero returns true when StartDate and EndDate are both zero, i.e. when the
 // Timeframe is uninitialized.
-func (tf *Timeframe) IsZero() bool {
+func (tf Timeframe) IsZero() bool {
 	return tf.StartDate.IsZero() && tf.EndDate.IsZero()
 }
 
-func (tf *Timeframe) String() string {
+func (tf Timeframe) String() string {
 	return fmt.Sprintf("{%s-%s}", tf.StartDate, tf.EndDate)
 }
-- 
2.43.0


From 93f50dfc63f52d76fb129a610365c4e55264c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 30/70] fix: read back the JSON form of the zero date

---
 domain/time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/time.go b/domain/time.go
index 231db68..86572e7 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -35,6 +35,10 @@ func (s ShortDate) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON unmarshals the JSON representation into a date
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	unquotedData, _ := strconv.Unquote(string(data))
+	if string(data) == `""` {
+		*s = ShortDate{}
+		return nil
+	}
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
 	return err
-- 
2.43.0


From 674f2e973d033f5d9161a101753098d8cd00e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 31/70] fix: an absent element has the zero value instead of
 panicking

---
 element/acknowledgement.go          |   3 +
 element/data_element.go             | 107 ++++++++++++++++++++++++++--
 element/group_data_element_group.go |  18 +++++
 element/message.go                  |   3 +
 element/signature.go                |   7 +-
 element/swift.go                    |   3 +
 element/user_parameter_data.go      |   6 ++
 7 files changed, 138 insertions(+), 9 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 6268a1e..ebf5abc 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -138,6 +138,9 @@ type ParamsDataElement struct {
 
 // Val returns the underlying value of the DataElement.
 func (p *ParamsDataElement) Val() []string {
+	if p == nil {
+		return nil
+	}
 	params := make([]string, len(p.array))
 	for i, de := range p.array {
 		params[i] = de.Value().(string)
diff --git a/element/data_element.go b/element/data_element.go
index 929e53b..3b49fe9 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -242,8 +242,14 @@ type AlphaNumericDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the data as string
-func (a *AlphaNumericDataElement) Val() string { return a.val.(string) }
+// Val returns the data as string. As for every other type of element, an absent
+// element has the zero value.
+func (a *AlphaNumericDataElement) Val() string {
+	if a == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 
 // IsValid returns false if a contains '\n' and '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
@@ -283,7 +289,13 @@ type TextDataElement struct {
 }
 
 // Val returns the value of a as a string
-func (a *TextDataElement) Val() string { return a.val.(string) }
+func (a *TextDataElement) Val() string {
+	if a == nil {
+		return ""
+	}
+	return a.val.(string)
+}
+
 func (a *TextDataElement) String() string {
 	return escape(a.basicDataElement.String())
 }
@@ -313,7 +325,12 @@ type DigitDataElement struct {
 }
 
 // Val returns the digit as int
-func (d *DigitDataElement) Val() int { return d.val.(int) }
+func (d *DigitDataElement) Val() int {
+	if d == nil {
+		return 0
+	}
+	return d.val.(int)
+}
 
 func (d *DigitDataElement) String() string {
 	fmtString := fmt.Sprintf("%%0%dd", d.maxLength)
@@ -346,7 +363,12 @@ type NumberDataElement struct {
 }
 
 // Val returns the value of n as int
-func (n *NumberDataElement) Val() int { return n.val.(int) }
+func (n *NumberDataElement) Val() int {
+	if n == nil {
+		return 0
+	}
+	return n.val.(int)
+}
 
 // MarshalHBCI marshals n into the HBCI wire format
 func (n *NumberDataElement) MarshalHBCI() ([]byte, error) {
@@ -374,7 +396,12 @@ type FloatDataElement struct {
 }
 
 // Val returns the value of f as float64
-func (f *FloatDataElement) Val() float64 { return f.val.(float64) }
+func (f *FloatDataElement) Val() float64 {
+	if f == nil {
+		return 0
+	}
+	return f.val.(float64)
+}
 
 func (f *FloatDataElement) String() string {
 	str := strconv.FormatFloat(f.Val(), 'f', -1, 64)
@@ -413,6 +440,14 @@ type DtausCharsetDataElement struct {
 	*BinaryDataElement
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (d *DtausCharsetDataElement) Val() []byte {
+	if d == nil {
+		return nil
+	}
+	return d.BinaryDataElement.Val()
+}
+
 // UnmarshalHBCI unmarshals value into d
 func (d *DtausCharsetDataElement) UnmarshalHBCI(value []byte) error {
 	var bin BinaryDataElement
@@ -436,6 +471,9 @@ type BinaryDataElement struct {
 
 // Val returns b as []byte
 func (b *BinaryDataElement) Val() []byte {
+	if b == nil {
+		return nil
+	}
 	return b.Value().([]byte)
 }
 
@@ -491,6 +529,9 @@ type BooleanDataElement struct {
 
 // Val returns the value of b as bool
 func (b *BooleanDataElement) Val() bool {
+	if b == nil {
+		return false
+	}
 	return b.Value().(bool)
 }
 
@@ -539,6 +580,14 @@ func (c *CodeDataElement) Type() DataElementType {
 	return codeDE
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (c *CodeDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // IsValid returns true if the value is in the valid set and the underlying
 // AlphaNumericDataElement is valid, false otherwise.
 func (c *CodeDataElement) IsValid() bool {
@@ -567,6 +616,9 @@ type DateDataElement struct {
 
 // Val returns the value of d as time.Time. The time component of it will always be zero.
 func (d *DateDataElement) Val() time.Time {
+	if d == nil {
+		return time.Time{}
+	}
 	return d.Value().(time.Time)
 }
 
@@ -607,6 +659,14 @@ type VirtualDateDataElement struct {
 	*NumberDataElement
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (v *VirtualDateDataElement) Val() int {
+	if v == nil {
+		return 0
+	}
+	return v.NumberDataElement.Val()
+}
+
 // Valid returns true if the length of v is 8, false otherwise
 func (v *VirtualDateDataElement) Valid() bool {
 	return v.Length() == 8
@@ -625,6 +685,9 @@ type TimeDataElement struct {
 
 // Val returns the value of t as time.Time.
 func (t *TimeDataElement) Val() time.Time {
+	if t == nil {
+		return time.Time{}
+	}
 	return t.Value().(time.Time)
 }
 
@@ -670,6 +733,14 @@ func (i *IdentificationDataElement) Type() DataElementType {
 	return identificationDE
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (i *IdentificationDataElement) Val() string {
+	if i == nil {
+		return ""
+	}
+	return i.AlphaNumericDataElement.Val()
+}
+
 // UnmarshalHBCI unmarshals value into i
 func (i *IdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	var alpha AlphaNumericDataElement
@@ -699,6 +770,14 @@ func (c *CountryCodeDataElement) Type() DataElementType {
 	return countryCodeDE
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (c *CountryCodeDataElement) Val() int {
+	if c == nil {
+		return 0
+	}
+	return c.DigitDataElement.Val()
+}
+
 // UnmarshalHBCI unmarshals value into c
 func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
@@ -733,6 +812,14 @@ func (c *CurrencyDataElement) Type() DataElementType {
 	return currencyDE
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (c *CurrencyDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // UnmarshalHBCI unmarshals value into c
 func (c *CurrencyDataElement) UnmarshalHBCI(value []byte) error {
 	var a AlphaNumericDataElement
@@ -761,6 +848,14 @@ func (v *ValueDataElement) Type() DataElementType {
 	return valueDE
 }
 
+// Val returns the underlying value, the zero value if the element is absent
+func (v *ValueDataElement) Val() float64 {
+	if v == nil {
+		return 0
+	}
+	return v.FloatDataElement.Val()
+}
+
 // UnmarshalHBCI unmarshals value into v
 func (v *ValueDataElement) UnmarshalHBCI(value []byte) error {
 	var f FloatDataElement
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 2364225..bd03112 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -38,6 +38,9 @@ func (a *AmountDataElement) Elements() []DataElement {
 
 // Val returns the value of a as a domain.Amount
 func (a *AmountDataElement) Val() domain.Amount {
+	if a == nil {
+		return domain.Amount{}
+	}
 	return domain.Amount{
 		Amount:   a.Amount.Val(),
 		Currency: a.Currency.Val(),
@@ -86,6 +89,9 @@ type BankIdentificationDataElement struct {
 
 // Val returns the value of b as domain.BankID
 func (b *BankIdentificationDataElement) Val() domain.BankID {
+	if b == nil {
+		return domain.BankID{}
+	}
 	return domain.BankID{
 		CountryCode: b.CountryCode.Val(),
 		ID:          b.BankID.Val(),
@@ -176,6 +182,9 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the value of a as domain.AccountConnection
 func (a *AccountConnectionDataElement) Val() domain.AccountConnection {
+	if a == nil {
+		return domain.AccountConnection{}
+	}
 	return domain.AccountConnection{
 		AccountID:                 a.AccountID.Val(),
 		SubAccountCharacteristics: a.SubAccountCharacteristics.Val(),
@@ -331,6 +340,9 @@ func (b *BalanceDataElement) Elements() []DataElement {
 
 // Balance returns the balance as domain.Balance
 func (b *BalanceDataElement) Balance() domain.Balance {
+	if b == nil {
+		return domain.Balance{}
+	}
 	sign := b.DebitCreditIndicator.Val()
 	val := b.Amount.Val()
 	if sign == "D" {
@@ -394,6 +406,9 @@ func (b *BalanceDataElement) UnmarshalHBCI(value []byte) error {
 
 // Date returns the transmission date of the balance
 func (b *BalanceDataElement) Date() time.Time {
+	if b == nil {
+		return time.Time{}
+	}
 	return b.TransmissionDate.Val()
 }
 
@@ -445,6 +460,9 @@ func (a *AddressDataElement) Elements() []DataElement {
 
 // Address returns the address as a domain.Address
 func (a *AddressDataElement) Address() domain.Address {
+	if a == nil {
+		return domain.Address{}
+	}
 	return domain.Address{
 		Name1:       a.Name1.Val(),
 		Name2:       a.Name2.Val(),
diff --git a/element/message.go b/element/message.go
index 3f92ae3..dff927c 100644
--- a/element/message.go
+++ b/element/message.go
@@ -29,6 +29,9 @@ type ReferencingMessageDataElement struct {
 
 // Val returns the value of r as domain.ReferencingMessage
 func (r *ReferencingMessageDataElement) Val() domain.MessageReference {
+	if r == nil {
+		return domain.MessageReference{}
+	}
 	return domain.MessageReference{
 		DialogID:      r.DialogID.Val(),
 		MessageNumber: r.MessageNumber.Val(),
diff --git a/element/signature.go b/element/signature.go
index b134dda..d15c8f7 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -332,10 +332,11 @@ type KeyNameDataElement struct {
 
 // Val returns the KeyName as domain.KeyName
 func (k *KeyNameDataElement) Val() domain.KeyName {
+	if k == nil {
+		return domain.KeyName{}
+	}
 	return domain.KeyName{
-		BankID: domain.BankID{
-			CountryCode: k.Bank.CountryCode.Val(),
-			ID:          k.Bank.BankID.Val()},
+		BankID:     k.Bank.Val(),
 		UserID:     k.UserID.Val(),
 		KeyType:    domain.KeyType(k.KeyType.Val()),
 		KeyNumber:  k.KeyNumber.Val(),
diff --git a/element/swift.go b/element/swift.go
index fc9bc94..45c60f5 100644
--- a/element/swift.go
+++ b/element/swift.go
@@ -24,5 +24,8 @@ func (s *SwiftMT940DataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the embodied transactions as *swift.MT940Messages
 func (s *SwiftMT940DataElement) Val() *swift.MT940Messages {
+	if s == nil {
+		return nil
+	}
 	return s.swiftMT940Messages
 }
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index bb3f0c5..b7ba0a2 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -68,6 +68,9 @@ func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
+	if a == nil {
+		return domain.AccountLimit{}
+	}
 	limit := domain.AccountLimit{
 		Kind: a.Kind.Val(),
 	}
@@ -128,6 +131,9 @@ func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) err
 
 // AllowedBusinessTransactions returns all allowed business transactions
 func (a *AllowedBusinessTransactionsDataElement) AllowedBusinessTransactions() []domain.BusinessTransaction {
+	if a == nil {
+		return nil
+	}
 	businessTransactions := make([]domain.BusinessTransaction, len(a.array))
 	for i, de := range a.array {
 		businessTransactions[i] = de.(*AllowedBusinessTransactionDataElement).Val()
-- 
2.43.0


From 72dfa656f1b4542ccf9c5f1422275a048e5b45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 32/70] fix: binary data has the size it claims

---
 element/data_element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index 3b49fe9..4e92be8 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -508,6 +508,9 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
+	if binSize < 0 || binSize > buf.Len() {
+		return fmt.Errorf("BinaryDataElement: Malformed input: size %d, but %d bytes of data", binSize, buf.Len())
+	}
 	binData := make([]byte, binSize)
 	_, err = buf.Read(binData)
 	if err != nil {
-- 
2.43.0


From 109186fd1bf55a4ba14da38e37d3e6f2d6586ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 33/70] fix: skip bank data without a bank ID, blank ones
 included

---
 bankinfo/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bankinfo/parser.go b/bankinfo/parser.go
index 11d214d..181fb8c 100644
--- a/bankinfo/parser.go
+++ b/bankinfo/parser.go
@@ -40,7 +40,7 @@ func ParseBankInfos(reader io.Reader) ([]BankInfo, error) {
 	}
 	var bankInfos []BankInfo
 	for _, record := range records {
-		if record.Get(bankIdentifierHeader) == "" {
+		if strings.TrimSpace(record.Get(bankIdentifierHeader)) == "" {
 			internal.Debug.Printf("No BankIdentifier found for record:\n%#v\n", record.AsMap())
 			continue
 		}
@@ -73,7 +73,7 @@ func ParseBicData(reader io.Reader) ([]BicInfo, error) {
 	}
 	var bicInfos []BicInfo
 	for _, record := range records {
-		if record.Get(bicBankIdentifier) == "" {
+		if strings.TrimSpace(record.Get(bicBankIdentifier)) == "" {
 			internal.Debug.Printf("No BankIdentifier found for record:\n%#v\n", record.AsMap())
 			continue
 		}
-- 
2.43.0


From 85ec23ece54d905541604d788c966a84e04c8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 34/70] fix: a client needs an URL, provided or known for its
 bank

---
 client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client.go b/client/client.go
index 658935a..d2af4b6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -58,6 +58,9 @@ func New(config Config) (*Client, error) {
 	} else {
 		url = bankInfo.URL
 	}
+	if url == "" && config.Transport == nil {
+		return nil, fmt.Errorf("no URL provided and none found for bank %q", config.BankID)
+	}
 	if config.HBCIVersion > 0 {
 		version, err := config.hbciVersion()
 		if err != nil {
-- 
2.43.0


From 2f62b890d15af0b9c07062af7bb7255f53f65461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 35/70] fix: put the documentation of Valid back in its place

---
 iban/iban.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index cdab7a3..341f2e1 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -124,7 +124,6 @@ func (i IBAN) ProofNumber() string {
 	return i.slice(2, 4)
 }
 
-// Valid returns true if the IBAN is valid, false otherwise
 // slice returns the part of i between from and to, as far as i reaches.
 func (i IBAN) slice(from, to int) string {
 	if to > len(i) {
@@ -136,6 +135,7 @@ func (i IBAN) slice(from, to int) string {
 	return string(i[from:to])
 }
 
+// Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
 	if len(i) < minIBANLength || len(i) > maxAllowedIBANLength {
 		return false
-- 
2.43.0


From d3ca8c68f34ccd0a156a4bea3b33be2a405986b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 36/70] fix: combine date and time of day of balances and
 status entries

---
 segment/account_balance.go | 37 ++++++++++++++++++-------------------
 segment/segment.go         |  7 +++++++
 segment/status_protocol.go |  4 ++--
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..cd7e7f9 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -3,7 +3,6 @@ package segment
 import (
 	"fmt"
 	"sort"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
@@ -249,9 +248,9 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		val := atTimeOfDay(*balance.BookingDate, t.Val())
+		balance.BookingDate = &val
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -325,9 +324,9 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		val := atTimeOfDay(*balance.BookingDate, t.Val())
+		balance.BookingDate = &val
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -401,9 +400,9 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		val := atTimeOfDay(*balance.BookingDate, t.Val())
+		balance.BookingDate = &val
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -439,9 +438,9 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		val := atTimeOfDay(*balance.BookingDate, t.Val())
+		balance.BookingDate = &val
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -513,9 +512,9 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		val := atTimeOfDay(*balance.BookingDate, t.Val())
+		balance.BookingDate = &val
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -551,9 +550,9 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		val := atTimeOfDay(*balance.BookingDate, t.Val())
+		balance.BookingDate = &val
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
diff --git a/segment/segment.go b/segment/segment.go
index 34015fe..713439c 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"time"
 
 	"github.com/mitch000001/go-hbci/element"
 )
@@ -145,3 +146,9 @@ func (s *segment) SetPosition(positionFn func() int) {
 func (s *segment) SetReference(ref int) {
 	s.header.SetReference(ref)
 }
+
+// atTimeOfDay returns the given date at the time of day of timeOfDay
+func atTimeOfDay(date, timeOfDay time.Time) time.Time {
+	hour, min, sec := timeOfDay.Clock()
+	return time.Date(date.Year(), date.Month(), date.Day(), hour, min, sec, 0, date.Location())
+}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..7254200 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -144,7 +144,7 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   atTimeOfDay(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
@@ -184,7 +184,7 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   atTimeOfDay(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
-- 
2.43.0


From 22392bab41f0fa755e075cb2c160eb0b205628db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 37/70] fix: read the challenge of a TAN response instead of
 adding it to the job reference

---
 element/data_element_type.go |  2 ++
 element/tan.go               | 25 +++++++++++++++++++++++++
 segment/tan.go               |  4 ++++
 segment/tan_unmarshaler.go   | 36 ++++++++++++++++++++++++++++++++----
 4 files changed, 63 insertions(+), 4 deletions(-)

diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..1fc33da 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,7 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	tanChallengeExpiryDateDEG
 )
 
 var typeName = map[DataElementType]string{
@@ -118,6 +119,7 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
+	tanChallengeExpiryDateDEG:             "Gültigkeitsdatum und -uhrzeit für Challenge",
 }
 
 func (d DataElementType) String() string {
diff --git a/element/tan.go b/element/tan.go
index 4f3f7f3..ec4b013 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -28,6 +28,31 @@ func (t *TanChallengeExpiryDate) GroupDataElements() []DataElement {
 	}
 }
 
+// UnmarshalHBCI unmarshals value into t
+func (t *TanChallengeExpiryDate) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) != 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	date := &DateDataElement{}
+	err = date.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return fmt.Errorf("malformed date: %w", err)
+	}
+	expiryTime := &TimeDataElement{}
+	err = expiryTime.UnmarshalHBCI(elements[1])
+	if err != nil {
+		return fmt.Errorf("malformed time: %w", err)
+	}
+	t.Date = date
+	t.Time = expiryTime
+	t.DataElement = NewDataElementGroup(tanChallengeExpiryDateDEG, 2, t)
+	return nil
+}
+
 // Tan2StepSubmissionParameterV6
 //
 // Parameter Zwei-Schritt-TAN-Einreichung, Elementversion #6
diff --git a/segment/tan.go b/segment/tan.go
index 4ce19e0..68fa766 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -153,5 +153,9 @@ func (t *TanResponseSegmentV6) elements() []element.DataElement {
 		t.TANProcess,
 		t.JobHash,
 		t.JobReference,
+		t.Challenge,
+		t.ChallengeHHD_UC,
+		t.ChallengeExpiryDate,
+		t.TANMediumDescription,
 	}
 }
diff --git a/segment/tan_unmarshaler.go b/segment/tan_unmarshaler.go
index 574ea36..85600b0 100644
--- a/segment/tan_unmarshaler.go
+++ b/segment/tan_unmarshaler.go
@@ -72,13 +72,41 @@ func (t *TanResponseSegmentV6) UnmarshalHBCI(value []byte) error {
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
 		t.JobReference = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 3 {
-			err = t.JobReference.UnmarshalHBCI(bytes.Join(elements[3:], []byte("+")))
+		err = t.JobReference.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		t.Challenge = &element.AlphaNumericDataElement{}
+		err = t.Challenge.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling Challenge: %w", err)
+		}
+	}
+	if len(elements) > 5 && len(elements[5]) > 0 {
+		t.ChallengeHHD_UC = &element.BinaryDataElement{}
+		err = t.ChallengeHHD_UC.UnmarshalHBCI(elements[5])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeHHD_UC: %w", err)
+		}
+	}
+	if len(elements) > 6 && len(elements[6]) > 0 {
+		t.ChallengeExpiryDate = &element.TanChallengeExpiryDate{}
+		err = t.ChallengeExpiryDate.UnmarshalHBCI(elements[6])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeExpiryDate: %w", err)
+		}
+	}
+	if len(elements) > 7 && len(elements[7]) > 0 {
+		t.TANMediumDescription = &element.AlphaNumericDataElement{}
+		if len(elements)+1 > 7 {
+			err = t.TANMediumDescription.UnmarshalHBCI(bytes.Join(elements[7:], []byte("+")))
 		} else {
-			err = t.JobReference.UnmarshalHBCI(elements[3])
+			err = t.TANMediumDescription.UnmarshalHBCI(elements[7])
 		}
 		if err != nil {
-			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+			return fmt.Errorf("error unmarshaling TANMediumDescription: %w", err)
 		}
 	}
 	return nil
-- 
2.43.0


From daa029513dccd4b06c6870c6e0969a3357465b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 38/70] fix: version 3 of the user parameter data has a user
 name and additions as well

---
 segment/user_parameter_data.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..2256370 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -93,9 +93,11 @@ func (c *CommonUserParameterDataV3) elements() []element.DataElement {
 
 func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData {
 	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
+		UserID:    c.UserID.Val(),
+		Version:   c.UPDVersion.Val(),
+		Usage:     c.UPDUsage.Val(),
+		UserName:  c.UserName.Val(),
+		Additions: c.CommonExtensions.Val(),
 	}
 }
 
-- 
2.43.0


From f73e408ef56ee53cd8e6055e7b4e52853521ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 39/70] fix: the time of a balance may be left out

---
 element/group_data_element_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index bd03112..26cb954 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -393,7 +393,7 @@ func (b *BalanceDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) == 5 {
+	if len(elements) > 4 && len(elements[4]) > 0 {
 		b.TransmissionTime = &TimeDataElement{}
 		err = b.TransmissionTime.UnmarshalHBCI(elements[4])
 		if err != nil {
-- 
2.43.0


From a00baf732d421b9588a9c46456008682f0b40123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 40/70] fix: decode the data element groups that panicked for
 want of a decoder

---
 element/account.go              | 19 +++++++++++
 element/bank_parameter_data.go  | 59 ++++++++++++++++++++++++++++++---
 element/communication_access.go | 55 +++++++++++++++++++++++++++++-
 element/data_element_type.go    |  2 ++
 element/element_extractor.go    | 17 ++++++++++
 element/pin.go                  | 15 +++++++--
 element/signature.go            | 23 +++++++++++++
 7 files changed, 182 insertions(+), 8 deletions(-)

diff --git a/element/account.go b/element/account.go
index ef118f5..4dcb1e6 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,6 +5,25 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into d
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	persons := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		person := &AlphaNumericDataElement{}
+		err = person.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		persons[i] = &DisposalEligiblePersonDataElement{DataElement: person}
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, 9, persons)
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 6729a7f..ea31da1 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -42,10 +42,28 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 	}
 }
 
-// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
+// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement. If
+// there are several methods, it is the first of them.
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(firstDataElement(value))
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	s.MethodCode = &AlphaNumericDataElement{}
+	err = s.MethodCode.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	err = s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":")))
+	if err != nil {
+		return err
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	return nil
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +90,21 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		err = version.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
@@ -186,6 +216,25 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value into the SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &AlphaNumericDataElement{}
+		err = method.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodDEG, 1, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..059b26f 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,10 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -55,3 +59,52 @@ func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 		c.FilterFunctionVersion,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into c. If there are several communication
+// parameters, it is the first of them.
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(firstDataElement(value))
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	if len(elements[0]) > 0 {
+		c.Protocol = &NumberDataElement{}
+		err = c.Protocol.UnmarshalHBCI(elements[0])
+		if err != nil {
+			return fmt.Errorf("malformed protocol: %w", err)
+		}
+	}
+	if len(elements[1]) > 0 {
+		c.Address = &AlphaNumericDataElement{}
+		err = c.Address.UnmarshalHBCI(elements[1])
+		if err != nil {
+			return fmt.Errorf("malformed address: %w", err)
+		}
+	}
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = &AlphaNumericDataElement{}
+		err = c.AddressAddition.UnmarshalHBCI(elements[2])
+		if err != nil {
+			return fmt.Errorf("malformed address addition: %w", err)
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = &AlphaNumericDataElement{}
+		err = c.FilterFunction.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return fmt.Errorf("malformed filter function: %w", err)
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		err = c.FilterFunctionVersion.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return fmt.Errorf("malformed filter function version: %w", err)
+		}
+	}
+	return nil
+}
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 1fc33da..530444c 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -66,6 +66,7 @@ const (
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
 	tanChallengeExpiryDateDEG
+	supportedCompressionMethodDEG
 )
 
 var typeName = map[DataElementType]string{
@@ -120,6 +121,7 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
 	tanChallengeExpiryDateDEG:             "Gültigkeitsdatum und -uhrzeit für Challenge",
+	supportedCompressionMethodDEG:         "Unterstützte Kompressionsverfahren",
 }
 
 func (d DataElementType) String() string {
diff --git a/element/element_extractor.go b/element/element_extractor.go
index 0140c45..9749bec 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -41,6 +41,23 @@ func endsWithDelimiter(dataElementGroup []byte) bool {
 	return terminated
 }
 
+// firstDataElement returns the data up to the first data element separator
+func firstDataElement(value []byte) []byte {
+	var first []byte
+	lexer := token.NewLexer("ElementExtractor", value)
+	for lexer.HasNext() {
+		t := lexer.Next()
+		switch t.Type() {
+		case token.ERROR:
+			return value
+		case token.DATA_ELEMENT_SEPARATOR, token.SEGMENT_END_MARKER:
+			return first
+		}
+		first = append(first, t.Value()...)
+	}
+	return first
+}
+
 // An groupExtractor extracts DataElements from DataElementGroups
 type groupExtractor struct {
 	rawDataElementGroup []byte
diff --git a/element/pin.go b/element/pin.go
index bd837e4..41220a9 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,17 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into c
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	pinTan := &PinTanDataElement{}
+	err := pinTan.UnmarshalHBCI(value)
+	if err != nil {
+		return err
+	}
+	c.PinTanDataElement = pinTan
+	return nil
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
@@ -64,10 +75,10 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
 	if len(elements) > 0 && len(elements[0]) > 0 {
 		p.PIN = &AlphaNumericDataElement{}
 		err = p.PIN.UnmarshalHBCI(elements[0])
diff --git a/element/signature.go b/element/signature.go
index d15c8f7..3619252 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -430,3 +430,26 @@ func (c *CertificateDataElement) GroupDataElements() []DataElement {
 		c.Content,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into c
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	c.CertificateType = &NumberDataElement{}
+	err = c.CertificateType.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return fmt.Errorf("malformed certificate type: %w", err)
+	}
+	c.Content = &BinaryDataElement{}
+	err = c.Content.UnmarshalHBCI(elements[1])
+	if err != nil {
+		return fmt.Errorf("malformed certificate: %w", err)
+	}
+	return nil
+}
-- 
2.43.0


From 8617ea084031ed87b83f6e1a7a0e426a3bc6e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 41/70] fix: keep what is read of an encryption algorithm and a
 security profile

---
 element/encryption.go       | 6 +++---
 element/signature_fints3.go | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/element/encryption.go b/element/encryption.go
index 9b74f98..2c79134 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -64,15 +64,15 @@ func (e *EncryptionAlgorithmDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
-	e = &EncryptionAlgorithmDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
 	}
-	if len(elements) < 7 {
+	// the initialization value is optional
+	if len(elements) < 6 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 5, e)
+	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
 	e.Usage = &AlphaNumericDataElement{}
 	err = e.Usage.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/element/signature_fints3.go b/element/signature_fints3.go
index 6684328..d925a60 100644
--- a/element/signature_fints3.go
+++ b/element/signature_fints3.go
@@ -22,7 +22,6 @@ type SecurityProfileDataElement struct {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
-	s = &SecurityProfileDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
@@ -30,7 +29,7 @@ func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	s.DataElement = NewDataElementGroup(securityProfileDEG, 5, s)
+	s.DataElement = NewDataElementGroup(securityProfileDEG, 2, s)
 	s.SecurityMethod = &AlphaNumericDataElement{}
 	err = s.SecurityMethod.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From acc8951d7dfadb81e2315098d893bc90e9e180d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 42/70] fix: optional PIN/TAN parameters may be left out

---
 element/pin.go | 29 +++++++++--------
 element/tan.go | 84 +++++++++++++++++++++++++++-----------------------
 2 files changed, 62 insertions(+), 51 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index 41220a9..ea97734 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -125,21 +125,24 @@ func (t *PinTanSpecificParamDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	var PinMinLength NumberDataElement
-	if err := PinMinLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling PinMinLength: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.PinMinLength = &NumberDataElement{}
+		if err := t.PinMinLength.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling PinMinLength: %v", err)
+		}
 	}
-	t.PinMinLength = &PinMinLength
-	var PinMaxLength NumberDataElement
-	if err := PinMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling PinMaxLength: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.PinMaxLength = &NumberDataElement{}
+		if err := t.PinMaxLength.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling PinMaxLength: %v", err)
+		}
 	}
-	t.PinMaxLength = &PinMaxLength
-	var TanMaxLength NumberDataElement
-	if err := TanMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling TanMaxLength: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.TanMaxLength = &NumberDataElement{}
+		if err := t.TanMaxLength.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling TanMaxLength: %v", err)
+		}
 	}
-	t.TanMaxLength = &TanMaxLength
 	var UserIDText AlphaNumericDataElement
 	if err := UserIDText.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling UserIDText: %v", err)
@@ -155,6 +158,6 @@ func (t *PinTanSpecificParamDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("error unmarshaling JobSpecificPinTanInformation: %v", err)
 	}
 	t.JobSpecificPinTanInformation = &JobSpecificPinTanInformation
-	t.DataElement = NewGroupDataElementGroup(pinTanSpecificParamDataElementDEG, 2, t)
+	t.DataElement = NewGroupDataElementGroup(pinTanSpecificParamDataElementDEG, 6, t)
 	return nil
 }
diff --git a/element/tan.go b/element/tan.go
index ec4b013..5477e77 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -251,53 +251,61 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 	t.ZKATanProcess = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 32)
 	t.ZKATanProcessVersion = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 10)
 	t.TwoStepProcessName = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 30)
-	var twoStepProcessMaxInputValue NumberDataElement
-	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.TwoStepProcessMaxInputValue = &NumberDataElement{}
+		if err := t.TwoStepProcessMaxInputValue.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
+		}
 	}
-	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
-	t.TwoStepProcessAllowedFormat = NewCode(iter.NextString(), 1, nil)
+	t.TwoStepProcessAllowedFormat = NewCode(unescape(charset.ToUTF8(iter.Next())), 1, nil)
 	t.TwoStepProcessReturnValueText = NewAlphaNumeric(unescape(charset.ToUTF8(iter.Next())), 30)
-	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
-	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.TwoStepProcessReturnValueTextMaxLength = &NumberDataElement{}
+		if err := t.TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
+		}
 	}
-	t.TwoStepProcessReturnValueTextMaxLength = &TwoStepProcessReturnValueTextMaxLength
-	var MultiTANAllowed BooleanDataElement
-	if err := MultiTANAllowed.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.MultiTANAllowed = &BooleanDataElement{}
+		if err := t.MultiTANAllowed.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
+		}
 	}
-	t.MultiTANAllowed = &MultiTANAllowed
-	t.TanTimeAndDialogReference = NewCode(iter.NextString(), 1, nil)
-	var JobCancellationAllowed BooleanDataElement
-	if err := JobCancellationAllowed.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling JobCancellationAllowed: %v", err)
+	t.TanTimeAndDialogReference = NewCode(unescape(charset.ToUTF8(iter.Next())), 1, nil)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.JobCancellationAllowed = &BooleanDataElement{}
+		if err := t.JobCancellationAllowed.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling JobCancellationAllowed: %v", err)
+		}
 	}
-	t.JobCancellationAllowed = &JobCancellationAllowed
-	t.SMSAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
-	t.IssuerAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "2"})
-	var ChallengeClassRequired BooleanDataElement
-	if err := ChallengeClassRequired.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling ChallengeClassRequired: %v", err)
+	t.SMSAccountRequired = NewCode(unescape(charset.ToUTF8(iter.Next())), 1, []string{"0", "1", "2"})
+	t.IssuerAccountRequired = NewCode(unescape(charset.ToUTF8(iter.Next())), 1, []string{"0", "2"})
+	if elem := iter.Next(); len(elem) > 0 {
+		t.ChallengeClassRequired = &BooleanDataElement{}
+		if err := t.ChallengeClassRequired.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeClassRequired: %v", err)
+		}
 	}
-	t.ChallengeClassRequired = &ChallengeClassRequired
-	var ChallengeStructured BooleanDataElement
-	if err := ChallengeStructured.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling ChallengeStructured: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.ChallengeStructured = &BooleanDataElement{}
+		if err := t.ChallengeStructured.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeStructured: %v", err)
+		}
 	}
-	t.ChallengeStructured = &ChallengeStructured
-	t.InitializationMode = NewCode(iter.NextString(), -1, []string{"00", "01", "02"})
-	t.TanMediumDescriptionRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
-	var HHD_UCResponseRequired BooleanDataElement
-	if err := HHD_UCResponseRequired.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
+	t.InitializationMode = NewCode(unescape(charset.ToUTF8(iter.Next())), -1, []string{"00", "01", "02"})
+	t.TanMediumDescriptionRequired = NewCode(unescape(charset.ToUTF8(iter.Next())), 1, []string{"0", "1", "2"})
+	if elem := iter.Next(); len(elem) > 0 {
+		t.HHD_UCResponseRequired = &BooleanDataElement{}
+		if err := t.HHD_UCResponseRequired.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
+		}
 	}
-	t.HHD_UCResponseRequired = &HHD_UCResponseRequired
-	var SupportedActiveTanMedia NumberDataElement
-	if err := SupportedActiveTanMedia.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling SupportedActiveTanMedia: %v", err)
+	if elem := iter.Next(); len(elem) > 0 {
+		t.SupportedActiveTanMedia = &NumberDataElement{}
+		if err := t.SupportedActiveTanMedia.UnmarshalHBCI(elem); err != nil {
+			return fmt.Errorf("error unmarshaling SupportedActiveTanMedia: %v", err)
+		}
 	}
-	t.SupportedActiveTanMedia = &SupportedActiveTanMedia
 	t.DataElement = NewGroupDataElementGroup(pinTanBusinessTransactionParameterGDEG, 2, t)
 	return nil
 }
-- 
2.43.0


From 7301486232296f009e6bc08d51d40065d98bcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 43/70] fix: an empty segment is an error, not a panic

---
 segment/element_extractor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index 2073e1d..3ff3457 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -6,12 +6,20 @@ import (
 	"github.com/mitch000001/go-hbci/token"
 )
 
-// ExtractElements extracts the data elements from segment
+// ExtractElements extracts the data elements from segment. The first one is the
+// segment header; it is an error if there is none.
 func ExtractElements(segment []byte) ([][]byte, error) {
 	extractor := &elementExtractor{
 		rawSegment: segment,
 	}
-	return extractor.Extract()
+	elements, err := extractor.Extract()
+	if err != nil {
+		return nil, err
+	}
+	if len(elements) == 0 {
+		return nil, fmt.Errorf("segment without elements: %q", segment)
+	}
+	return elements, nil
 }
 
 type elementExtractor struct {
-- 
2.43.0


From 546bbbbdfd0aad7ad04cf1bd8830ec060f7d5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 44/70] fix: report malformed country codes, references and
 parameters

---
 element/data_element.go | 6 +++++-
 element/message.go      | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/element/data_element.go b/element/data_element.go
index 4e92be8..d18063c 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -166,6 +166,10 @@ func (g *elementGroup) UnmarshalHBCI(value []byte) error {
 		if len(elem) == 0 {
 			continue
 		}
+		if i >= len(elements) {
+			errors = append(errors, fmt.Sprintf("unexpected element %q", elem))
+			break
+		}
 		elemToMarshal := reflect.New(reflect.TypeOf(elements[i]).Elem())
 		err := elemToMarshal.Interface().(DataElement).UnmarshalHBCI(elem)
 		if err == nil {
@@ -786,7 +790,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
diff --git a/element/message.go b/element/message.go
index dff927c..a659bc0 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,6 +50,9 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-- 
2.43.0


From 4f4f84b5e5304c93a396d1bdcf57f6f58d1f89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 45/70] fix: damaged acknowledgements, accounts and TAN
 parameters are errors or absent, not panics

---
 element/acknowledgement.go          |  5 ++++-
 element/group_data_element_group.go | 14 +++++++++-----
 element/tan.go                      |  3 +++
 segment/pin_bpd.go                  |  3 +++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index ebf5abc..870e063 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -64,6 +64,9 @@ func (a *AcknowledgementDataElement) SetType(acknowledgementType string) {
 
 // Val returns the underlying value of the acknowledgement.
 func (a *AcknowledgementDataElement) Val() domain.Acknowledgement {
+	if a == nil {
+		return domain.Acknowledgement{}
+	}
 	return domain.Acknowledgement{
 		Code:                     a.Code.Val(),
 		ReferenceDataElement:     a.ReferenceDataElement.Val(),
@@ -152,7 +155,7 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 26cb954..d293514 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,12 +115,13 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 2 {
 		return fmt.Errorf("malformed marshaled value: less than 2 elements: %s", elements)
 	}
-	countryCode := &CountryCodeDataElement{}
-	err = countryCode.UnmarshalHBCI(elements[0])
-	if err != nil {
-		return err
+	if len(elements[0]) > 0 {
+		b.CountryCode = &CountryCodeDataElement{}
+		err = b.CountryCode.UnmarshalHBCI(elements[0])
+		if err != nil {
+			return fmt.Errorf("malformed CountryCode: %w", err)
+		}
 	}
-	b.CountryCode = countryCode
 	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
 	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
@@ -278,6 +279,9 @@ func (i *InternationalAccountConnectionDataElement) UnmarshalHBCI(value []byte)
 // Val returns the value of i as domain.InternationalAccountConnection
 func (i *InternationalAccountConnectionDataElement) Val() domain.InternationalAccountConnection {
 	conn := domain.InternationalAccountConnection{}
+	if i == nil {
+		return conn
+	}
 	if i.IBAN != nil {
 		conn.IBAN = i.IBAN.Val()
 	}
diff --git a/element/tan.go b/element/tan.go
index 5477e77..094ca3b 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -106,6 +106,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", t)
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..10db545 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -46,6 +46,9 @@ func (t *PinTanBankParameterV1) elements() []element.DataElement {
 
 func (t *PinTanBankParameterV1) PinTanBusinessTransactions() []domain.PinTanBusinessTransaction {
 	var transactions []domain.PinTanBusinessTransaction
+	if t.PinTanSpecificParams == nil {
+		return transactions
+	}
 	for _, transactionDe := range t.PinTanSpecificParams.JobSpecificPinTanInformation.GroupDataElements() {
 		transactions = append(transactions, transactionDe.(*element.PinTanBusinessTransactionParameter).Val())
 	}
-- 
2.43.0


From c896fcb69fd69bac4e6779c4fcf6c832aa64df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 46/70] fix: build status protocol requests in the version
 asked for

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index 7254200..431d7f1 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From 41a4e6cee594bb981a4a09c0d6c09aff06a232d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 47/70] fix: look up the status protocol versions the bank
 announces

---
 segment/hbci_version.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
-- 
2.43.0


From dda1c840f0b97b230314a85ca83eb33dfba0a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 48/70] fix: SEPA account transactions can be requested in
 version 7

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From 5ed88b15716d719b2b21b05dd831553dd4be98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 49/70] fix: picking a segment version leaves the list of
 versions as it is

---
 segment/account_balance.go     | 2 ++
 segment/account_transaction.go | 2 ++
 segment/status_protocol.go     | 1 +
 segment/tan.go                 | 1 +
 4 files changed, 6 insertions(+)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index cd7e7f9..0491971 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -20,6 +20,7 @@ var sepaAccountBalanceRequests = map[int]func(account domain.InternationalAccoun
 
 // AccountBalanceRequestBuilder returns the highest matching versioned segment
 func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) AccountBalanceRequest, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := accountBalanceRequests[version]
@@ -32,6 +33,7 @@ func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountCo
 
 // SepaAccountBalanceRequestBuilder returns the highest matching versioned segment
 func SepaAccountBalanceRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) AccountBalanceRequest, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := sepaAccountBalanceRequests[version]
diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index a90c5f4..85e0190 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -16,6 +16,7 @@ var accountTransactionRequests = map[int](func(account domain.AccountConnection,
 }
 
 func AccountTransactionRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := accountTransactionRequests[version]
@@ -27,6 +28,7 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 }
 
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		switch version {
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index 431d7f1..9ed2145 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -10,6 +10,7 @@ import (
 )
 
 func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxEntries int, continuationReference string) StatusProtocolRequest, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		switch version {
diff --git a/segment/tan.go b/segment/tan.go
index 68fa766..a3be8af 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -15,6 +15,7 @@ var tanProcess4RequestSegmentConstructors = map[int](tanProcess4Constructor){
 }
 
 func TanProcess4RequestBuilder(versions []int) (tanProcess4Constructor, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := tanProcess4RequestSegmentConstructors[version]
-- 
2.43.0


From 2fa1336d136fc9e4b5f9bbe63c344c20b07d0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 50/70] fix: an announcement of further pages without a mark
 does not panic

---
 client/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index d2af4b6..9653a81 100644
--- a/client/client.go
+++ b/client/client.go
@@ -201,7 +201,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	var newContinuationReference string
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
+		if ack.Code == element.AcknowledgementAdditionalInformation && len(ack.Params) > 0 {
 			newContinuationReference = ack.Params[0]
 			break
 		}
@@ -321,7 +321,7 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	var newContinuationReference string
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
+		if ack.Code == element.AcknowledgementAdditionalInformation && len(ack.Params) > 0 {
 			newContinuationReference = ack.Params[0]
 			break
 		}
-- 
2.43.0


From 821bcca369cd2ad25d9fc64764abacb8d0ba562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 51/70] fix: follow the continuation marks of account balances

---
 client/client.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 9653a81..2512588 100644
--- a/client/client.go
+++ b/client/client.go
@@ -243,6 +243,10 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 // If allAccounts is true it will fetch also the balances for all accounts
 // associated with the account.
 func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts bool) ([]domain.AccountBalance, error) {
+	return c.accountBalances(account, allAccounts, "")
+}
+
+func (c *Client) accountBalances(account domain.AccountConnection, allAccounts bool, continuationReference string) ([]domain.AccountBalance, error) {
 	if err := c.init(); err != nil {
 		return nil, err
 	}
@@ -251,6 +255,9 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err != nil {
 		return nil, err
 	}
+	if continuationReference != "" {
+		accountBalanceRequest.SetContinuationMark(continuationReference)
+	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(
 			c.hbciVersion,
@@ -273,8 +280,22 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-
-	return balances, nil
+	var newContinuationReference string
+	acknowledgements := decryptedMessage.Acknowledgements()
+	for _, ack := range acknowledgements {
+		if ack.Code == element.AcknowledgementAdditionalInformation && len(ack.Params) > 0 {
+			newContinuationReference = ack.Params[0]
+			break
+		}
+	}
+	if newContinuationReference == "" {
+		return balances, nil
+	}
+	nextBal, err := c.accountBalances(account, allAccounts, newContinuationReference)
+	if err != nil {
+		return nil, err
+	}
+	return append(balances, nextBal...), nil
 }
 
 // AccountBalances retrieves the balance for the provided account.
-- 
2.43.0


From 7e38124c2c5df2673a94ded3adf86d3aa3724462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 52/70] fix: a text the bank's character set lacks is an error,
 not a panic

---
 charset/convert.go      | 6 ++++++
 element/data_element.go | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/charset/convert.go b/charset/convert.go
index 49df4c1..9491ec8 100644
--- a/charset/convert.go
+++ b/charset/convert.go
@@ -34,3 +34,9 @@ func ToISO8859_1(utf8String string) []byte {
 	// TODO: propagate errors
 	return mustConvert(encoder.Bytes([]byte(utf8String)))
 }
+
+// EncodeISO8859_1 encodes the provided utf8String to the ISO8859_1 encoding
+// like ToISO8859_1, but returns the error of the encoder.
+func EncodeISO8859_1(utf8String string) ([]byte, error) {
+	return charmap.ISO8859_1.NewEncoder().Bytes([]byte(utf8String))
+}
diff --git a/element/data_element.go b/element/data_element.go
index d18063c..d5d7327 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -269,8 +269,7 @@ func (a *AlphaNumericDataElement) String() string {
 
 // MarshalHBCI marshals a into a byte representation ready to be sent over the wire.
 func (a *AlphaNumericDataElement) MarshalHBCI() ([]byte, error) {
-	val := charset.ToISO8859_1(escape(a.basicDataElement.String()))
-	return val, nil
+	return charset.EncodeISO8859_1(escape(a.basicDataElement.String()))
 }
 
 // UnmarshalHBCI unmarshals the given bytes into a
@@ -306,8 +305,7 @@ func (a *TextDataElement) String() string {
 
 // MarshalHBCI marshals a into the HBCI wire format
 func (a *TextDataElement) MarshalHBCI() ([]byte, error) {
-	val := charset.ToISO8859_1(escape(a.basicDataElement.String()))
-	return val, nil
+	return charset.EncodeISO8859_1(escape(a.basicDataElement.String()))
 }
 
 // UnmarshalHBCI unmarshals value into a
-- 
2.43.0


From 1b5b1e73f4bef6ae9314be67975fd64973822c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 53/70] fix: a page without booked transactions is empty, not a
 panic

---
 swift/unmarshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index acb32ec..b68a1ca 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -22,7 +22,12 @@ type MT940Messages struct {
 }
 
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
-	sortedMessages := sortedByTimestamp(messages)
+	var sortedMessages sortedByTimestamp
+	for _, msg := range messages {
+		if msg != nil {
+			sortedMessages = append(sortedMessages, msg)
+		}
+	}
 	sort.Sort(sortedMessages)
 	merged := &MT940Messages{
 		Data:      []byte{},
-- 
2.43.0


From 35be6fcb570af465c53541f34382325e86927028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 54/70] fix: TAN parameters without their content do not panic

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 939bda5..add312d 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -516,7 +516,11 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 		return nil, false
 	}
 	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+	tanParameter := rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter
+	if tanParameter == nil || tanParameter.ProcessParameters == nil {
+		return nil, false
+	}
+	for _, pp := range tanParameter.ProcessParameters.GroupDataElements() {
 		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
 		fn := tan2StepPP.SecurityFunction.Val()
 		availableSecurityFns[fn] = tan2StepPP
-- 
2.43.0


From f68877328d77911caf90479e3638f25b4c45b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 55/70] fix: a segment is found by its whole identifier

---
 message/segment_extractor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 1281488..ad56afd 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -47,9 +47,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 // FindSegment searches for a given ID and returns the first appearing segment
 // bytes if present
 func (s *SegmentExtractor) FindSegment(id string) []byte {
-	byteID := []byte(id)
+	prefix := []byte(id + ":")
 	for _, segment := range s.segments {
-		if bytes.HasPrefix(segment, byteID) {
+		if bytes.HasPrefix(segment, prefix) {
 			return segment
 		}
 	}
-- 
2.43.0


From d34bcbd00b3e7c0fce12625104132be649d4359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 56/70] fix: extracting segments again does not repeat them

---
 message/segment_extractor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index ad56afd..01883cc 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -24,6 +24,7 @@ type SegmentExtractor struct {
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
 	var current []byte
+	var segments [][]byte
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
 		t := lexer.Next()
@@ -32,13 +33,14 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 		}
 		current = append(current, t.Value()...)
 		if t.Type() == token.SEGMENT_END_MARKER {
-			s.segments = append(s.segments, current)
+			segments = append(segments, current)
 			current = []byte{}
 		}
 	}
 	if len(current) != 0 {
 		return nil, fmt.Errorf("%T: SyntaxError: segment not terminated: %q\n(%q)", s, current, s.rawMessage)
 	}
+	s.segments = segments
 	result := make([][]byte, len(s.segments))
 	copy(result, s.segments)
 	return result, nil
-- 
2.43.0


From e3059848f75d8aeaeccf8bc3caae7e117de7cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 57/70] fix: decoding a message again does not repeat its
 segments

---
 message/unmarshaler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 82d531f..a8e5ed9 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -40,6 +40,7 @@ func (u *Unmarshaler) Unmarshal() error {
 	if err != nil {
 		return err
 	}
+	u.segments = make(map[string][]segment.Segment)
 	for _, seg := range rawSegments {
 		header, err := extractSegmentHeader(seg)
 		if err != nil {
-- 
2.43.0


From 22c83be3bc44dc536270867603cee527dffc4a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 58/70] fix: a segment is decoded in the version asked for

---
 message/unmarshaler.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index a8e5ed9..76eaa1d 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -75,7 +75,7 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes, err := u.extractSegment(segmentID)
+	segmentBytes, err := u.extractSegment(segmentID, version)
 	if err != nil {
 		return nil, err
 	}
@@ -86,16 +86,21 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	return unmarshaler.(segment.Segment), nil
 }
 
-func (u *Unmarshaler) extractSegment(segmentID string) ([]byte, error) {
+func (u *Unmarshaler) extractSegment(segmentID string, version int) ([]byte, error) {
 	_, err := u.segmentExtractor.Extract()
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes := u.segmentExtractor.FindSegment(segmentID)
-	if segmentBytes == nil {
-		return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
+	for _, segmentBytes := range u.segmentExtractor.FindSegments(segmentID) {
+		header, err := extractSegmentHeader(segmentBytes)
+		if err != nil {
+			return nil, err
+		}
+		if header.Version.Val() == version {
+			return segmentBytes, nil
+		}
 	}
-	return segmentBytes, nil
+	return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
 }
 
 // SegmentsByID returns all already unmarshaled segments for the given ID
-- 
2.43.0


From f51c0704f960529b0b7931de0570173532ae7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 59/70] fix: every message acknowledgement of an answer counts

---
 message/decryption.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..e0c9d48 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -16,10 +16,11 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 		return nil, fmt.Errorf("Malformed decrypted message bytes: %v", err)
 	}
 	var acknowledgements []domain.Acknowledgement
-	messageAcknowledgement, ok := unmarshaler.SegmentByID("HIRMG").(*segment.MessageAcknowledgement)
-	if ok {
-		messageAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
-		acknowledgements = append(acknowledgements, messageAcknowledgement.Acknowledgements()...)
+	for _, seg := range unmarshaler.SegmentsByID("HIRMG") {
+		if messageAcknowledgement, ok := seg.(*segment.MessageAcknowledgement); ok {
+			messageAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
+			acknowledgements = append(acknowledgements, messageAcknowledgement.Acknowledgements()...)
+		}
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
-- 
2.43.0


From 65e6f11d4f8c577aef8c9898c6dcf51f4a4d9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 60/70] fix: segment acknowledgements refer to their message

---
 message/decryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/decryption.go b/message/decryption.go
index e0c9d48..82cb6e9 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -24,6 +24,7 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
+			segmentAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
 			acknowledgements = append(acknowledgements, segmentAcknowledgement.Acknowledgements()...)
 		} else {
 			panic(fmt.Errorf("Error while unmarshaling segments"))
-- 
2.43.0


From d9b181ee9402bd79fbae7bb7761bc753f011085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 61/70] fix: a message is written as it is now, not as it first
 was

---
 message/message.go | 54 +++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/message/message.go b/message/message.go
index fc04b12..7bba258 100644
--- a/message/message.go
+++ b/message/message.go
@@ -103,8 +103,7 @@ type BasicMessage struct {
 	SignatureBegin *segment.SignatureHeaderSegment
 	SignatureEnd   *segment.SignatureEndSegment
 	HBCIMessage
-	hbciVersion      segment.HBCIVersion
-	marshaledContent []byte
+	hbciVersion segment.HBCIVersion
 }
 
 // SetSegmentPositions sets the message number on every segment within the message
@@ -189,44 +188,41 @@ func (b *BasicMessage) MarshalHBCI() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if len(b.marshaledContent) == 0 {
-		var buffer bytes.Buffer
-		headerBytes, err := b.Header.MarshalHBCI()
+	var buffer bytes.Buffer
+	headerBytes, err := b.Header.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(headerBytes)
+	if b.SignatureBegin != nil {
+		sigBytes, err := b.SignatureBegin.MarshalHBCI()
 		if err != nil {
 			return nil, err
 		}
-		buffer.Write(headerBytes)
-		if b.SignatureBegin != nil {
-			sigBytes, err := b.SignatureBegin.MarshalHBCI()
-			if err != nil {
-				return nil, err
-			}
-			buffer.Write(sigBytes)
-		}
-		for _, segment := range b.HBCIMessage.HBCISegments() {
-			if !reflect.ValueOf(segment).IsNil() {
-				segBytes, err := segment.MarshalHBCI()
-				if err != nil {
-					return nil, err
-				}
-				buffer.Write(segBytes)
-			}
-		}
-		if b.SignatureEnd != nil {
-			sigEndBytes, err := b.SignatureEnd.MarshalHBCI()
+		buffer.Write(sigBytes)
+	}
+	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if !reflect.ValueOf(segment).IsNil() {
+			segBytes, err := segment.MarshalHBCI()
 			if err != nil {
 				return nil, err
 			}
-			buffer.Write(sigEndBytes)
+			buffer.Write(segBytes)
 		}
-		endBytes, err := b.End.MarshalHBCI()
+	}
+	if b.SignatureEnd != nil {
+		sigEndBytes, err := b.SignatureEnd.MarshalHBCI()
 		if err != nil {
 			return nil, err
 		}
-		buffer.Write(endBytes)
-		b.marshaledContent = buffer.Bytes()
+		buffer.Write(sigEndBytes)
 	}
-	return b.marshaledContent, nil
+	endBytes, err := b.End.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(endBytes)
+	return buffer.Bytes(), nil
 }
 
 // Sign signs b using the SignatureProvider
-- 
2.43.0


From 01ec4237d3629e7a9f85315f7a03d4b9b72d5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 62/70] fix: the signature covers the bytes that are sent

---
 message/message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 7bba258..225fff9 100644
--- a/message/message.go
+++ b/message/message.go
@@ -236,10 +236,18 @@ func (b *BasicMessage) Sign(provider SignatureProvider) (*BasicSignedMessage, er
 	b.SignatureEnd = b.hbciVersion.SignatureEnd()
 	b.SetSegmentPositions()
 	var buffer bytes.Buffer
-	buffer.WriteString(b.SignatureBegin.String())
+	sigBytes, err := b.SignatureBegin.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(sigBytes)
 	for _, segment := range b.HBCIMessage.HBCISegments() {
 		if !reflect.ValueOf(segment).IsNil() {
-			buffer.WriteString(segment.String())
+			segBytes, err := segment.MarshalHBCI()
+			if err != nil {
+				return nil, err
+			}
+			buffer.Write(segBytes)
 		}
 	}
 	sig, err := provider.Sign(buffer.Bytes())
-- 
2.43.0


From 146f821c52c117d9c1792511f012290f0fa42b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 63/70] fix: a segment whose elements cannot be listed is
 refused

---
 generator/segment_field_visitor.go | 2 ++
 generator/segment_unmarshaler.go   | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/generator/segment_field_visitor.go b/generator/segment_field_visitor.go
index 3fbed78..04fc764 100644
--- a/generator/segment_field_visitor.go
+++ b/generator/segment_field_visitor.go
@@ -14,6 +14,7 @@ type elementVisitor struct {
 	fileSet      *token.FileSet
 	object       *ast.Object
 	fields       []field
+	found        bool
 	err          error
 }
 
@@ -27,6 +28,7 @@ func (e *elementVisitor) Visit(node ast.Node) ast.Visitor {
 						if res, ok := ret.Results[0].(*ast.CompositeLit); ok {
 							resType := nodeToString(res.Type, e.fileSet)
 							if resType == segmentElementsMethodReturnType {
+								e.found = true
 								for _, element := range res.Elts {
 									if sel, ok := element.(*ast.SelectorExpr); ok {
 										pos := sel.Pos()
diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index 6705912..c643b0c 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -184,6 +184,12 @@ func (f *fieldExtractor) extractFields() ([]field, error) {
 	if elemVisitor.err != nil {
 		return nil, elemVisitor.err
 	}
+	if !elemVisitor.found {
+		return nil, fmt.Errorf(
+			"no method %q of segment %q found that just returns a list of elements",
+			segmentElementsMethodIdentifier, f.segment.Name,
+		)
+	}
 
 	sortedFields := sortedFields(elemVisitor.fields)
 	sort.Sort(sortedFields)
-- 
2.43.0


From dadfe04ea18e8b786f05f39287132da03579dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 64/70] fix: the decoder of a segment without elements compiles

---
 generator/segment_unmarshaler.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index c643b0c..ef20dc9 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -168,6 +168,12 @@ type segmentTemplateObject struct {
 	counter       int
 }
 
+// HasFields says whether there are any elements to unmarshal
+func (s *segmentTemplateObject) HasFields() bool { return len(s.Fields) != 0 }
+
+// UsesElements says whether the element package is used
+func (s *segmentTemplateObject) UsesElements() bool { return s.HasFields() }
+
 type fieldExtractor struct {
 	file    *ast.File
 	fileSet *token.FileSet
@@ -262,10 +268,14 @@ func init() {
 const packageDeclTemplate = `{{define "package_declaration"}}package {{.Package}}
 
 import (
+{{- if .HasFields }}
 	"bytes"
+{{- end }}
 	"fmt"
+{{- if .UsesElements }}
 
 	"github.com/mitch000001/go-hbci/element"
+{{- end }}
 ){{end}}
 `
 
@@ -303,6 +313,19 @@ type versionedSegmentTemplateObject struct {
 	SegmentVersions []*segmentTemplateObject
 }
 
+// HasFields says whether there are any elements to unmarshal in any version
+func (v *versionedSegmentTemplateObject) HasFields() bool {
+	for _, version := range v.SegmentVersions {
+		if version.HasFields() {
+			return true
+		}
+	}
+	return false
+}
+
+// UsesElements says whether the element package is used
+func (v *versionedSegmentTemplateObject) UsesElements() bool { return true }
+
 type versionedSegmentTemplateExecutor struct {
 	templateObject *versionedSegmentTemplateObject
 }
-- 
2.43.0


From d8176f25f09cae466437822af9e9a2b5f10c40e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 65/70] fix: no decoder is generated from a file with syntax
 errors

---
 cmd/unmarshaler/unmarshaler_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/unmarshaler/unmarshaler_generator.go b/cmd/unmarshaler/unmarshaler_generator.go
index f1bf8f9..52f7b54 100644
--- a/cmd/unmarshaler/unmarshaler_generator.go
+++ b/cmd/unmarshaler/unmarshaler_generator.go
@@ -37,6 +37,7 @@ func main() {
 	f, err := parser.ParseFile(fileSet, filename, nil, 0)
 	if err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 	segment := generator.SegmentIdentifier{
 		Name:          segmentName,
-- 
2.43.0


From 23f67b614a256d95642efc0e7fdbdd1fd711ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 66/70] fix: long or leading empty values kept the columns of
 tables apart no more

---
 domain/account_balance.go     | 8 ++++----
 domain/account_information.go | 4 ++--
 domain/account_transaction.go | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/domain/account_balance.go b/domain/account_balance.go
index a7459f0..cf068d1 100644
--- a/domain/account_balance.go
+++ b/domain/account_balance.go
@@ -42,7 +42,7 @@ func (ab AccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -79,7 +79,7 @@ func (a AccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -120,7 +120,7 @@ func (ab SepaAccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -158,7 +158,7 @@ func (a SepaAccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_information.go b/domain/account_information.go
index ca7976a..0acd06d 100644
--- a/domain/account_information.go
+++ b/domain/account_information.go
@@ -35,7 +35,7 @@ func (ai AccountInfos) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -77,7 +77,7 @@ func (a AccountInformation) String() string {
 	}
 	buf.WriteString("\n")
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.Debug)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.Debug)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_transaction.go b/domain/account_transaction.go
index c85862f..06d1933 100644
--- a/domain/account_transaction.go
+++ b/domain/account_transaction.go
@@ -55,7 +55,7 @@ func (at AccountTransactions) String() string {
 		)
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -93,7 +93,7 @@ func (a AccountTransaction) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(a.Purpose)
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 0, 8, 0, '\t', 0)
+	tabw := tabwriter.NewWriter(&out, 0, 8, 1, '\t', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
-- 
2.43.0


From 573ea8130b77647a9f250b79363a7488d06995e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 67/70] fix: a failure to fetch the accounts says why

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2512588..b7c1c97 100644
--- a/client/client.go
+++ b/client/client.go
@@ -121,7 +121,7 @@ func (c *Client) Accounts() ([]domain.AccountInformation, error) {
 	}
 	err := c.pinTanDialog.SyncUserParameterData()
 	if err != nil {
-		return nil, fmt.Errorf("error getting accounts")
+		return nil, fmt.Errorf("error getting accounts: %w", err)
 	}
 	return c.pinTanDialog.Accounts, nil
 }
-- 
2.43.0


From 90e97731a8fba8b9ecb08bc0c98156540cebdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 68/70] fix: values of a bank list with quotes or backslashes
 keep their text

---
 cmd/bankdata_parser/bankdata_parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 684415f..696e699 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -81,14 +81,14 @@ package bankinfo
 
 var data = []BankInfo{
 	{{range $element := .}}{
-		BankID: "{{.BankID}}",
-		BIC: "{{.BIC}}",
-		VersionNumber: "{{.VersionNumber}}",
-		URL: "{{.URL}}",
-		VersionName: "{{.VersionName}}",
+		BankID: {{.BankID | printf "%q" }},
+		BIC: {{.BIC | printf "%q" }},
+		VersionNumber: {{.VersionNumber | printf "%q" }},
+		URL: {{.URL | printf "%q" }},
+		VersionName: {{.VersionName | printf "%q" }},
 		Institute: {{.Institute | printf "%q" }},
-		City: "{{.City}}",
-		LastChanged: "{{.LastChanged}}",
+		City: {{.City | printf "%q" }},
+		LastChanged: {{.LastChanged | printf "%q" }},
 	},
 	{{end}}
 }`
-- 
2.43.0


From 294d7e46a0d0057ec3f76b7cfdb0acd87e5bbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 69/70] fix: a settings file that cannot be read is reported
 and not replaced

---
 cmd/banking/root.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/cmd/banking/root.go b/cmd/banking/root.go
index f79c629..e67f8b3 100644
--- a/cmd/banking/root.go
+++ b/cmd/banking/root.go
@@ -128,15 +128,21 @@ func initConfig() {
 	viper.AutomaticEnv() // read in environment variables that match
 
 	// If a config file is found, read it in.
-	if err := viper.ReadInConfig(); err == nil {
+	err := viper.ReadInConfig()
+	if err == nil {
 		fmt.Println("Using config file:", viper.ConfigFileUsed())
-	} else {
-		// Find home directory.
-		home, err := homedir.Dir()
-		if err != nil {
-			fmt.Println(err)
-			os.Exit(1)
-		}
-		viper.WriteConfigAs(filepath.Join(home, ".banking.yaml"))
+		return
+	}
+	if _, ok := err.(viper.ConfigFileNotFoundError); !ok {
+		// never replace a config file which is there but can't be read
+		fmt.Println(err)
+		os.Exit(1)
+	}
+	// Find home directory.
+	home, err := homedir.Dir()
+	if err != nil {
+		fmt.Println(err)
+		os.Exit(1)
 	}
+	viper.WriteConfigAs(filepath.Join(home, ".banking.yaml"))
 }
-- 
2.43.0


From b77f3f94e2c8775adb886fb5c44c3f42145dbd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 70/70] fix: making a client while another one is used is no
 data race on the log setting

---
 internal/logger.go | 55 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 736035a..0a78758 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -5,41 +5,70 @@ import (
 	"io"
 	"log"
 	"os"
+	"strconv"
+	"sync/atomic"
 )
 
 func init() {
-	flag.BoolVar(&debugMode, "debug", false, "true")
+	flag.Var(&debugMode, "debug", "true")
 }
 
-var debugMode = false
-var infoMode = true
+// A toggle can be switched and read at the same time. It implements flag.Value
+// for boolean flags.
+type toggle struct{ on int32 }
+
+func (t *toggle) enabled() bool { return atomic.LoadInt32(&t.on) != 0 }
+
+func (t *toggle) enable(on bool) {
+	var value int32
+	if on {
+		value = 1
+	}
+	atomic.StoreInt32(&t.on, value)
+}
+
+func (t *toggle) String() string { return strconv.FormatBool(t.enabled()) }
+
+func (t *toggle) Set(value string) error {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return err
+	}
+	t.enable(on)
+	return nil
+}
+
+func (t *toggle) IsBoolFlag() bool { return true }
+
+var debugMode toggle
+var infoMode = toggle{on: 1}
 var debugFlags = log.Lshortfile | log.LstdFlags
 
 // DebugMode returns true if debugMode is set, false otherwise
 func DebugMode() bool {
-	return debugMode
+	return debugMode.enabled()
 }
 
 // SetDebugMode sets the debug mode
 func SetDebugMode(debug bool) {
-	debugMode = debug
+	debugMode.enable(debug)
 }
 
 // InfoLog returns true if logging to info level is enabled, false otherwise
 func InfoLog() bool {
-	return infoMode
+	return infoMode.enabled()
 }
 
 // SetInfoLog sets whether the info log should be enabled
 func SetInfoLog(info bool) {
-	infoMode = info
+	infoMode.enable(info)
 }
 
 // WithDebugLogging enables debug logging for the given function fn
 func WithDebugLogging(fn func()) {
-	debugMode = true
+	debugMode.enable(true)
 	fn()
-	debugMode = false
+	debugMode.enable(false)
 }
 
 // Debug is a logger which logs when debugMode is enabled. If disabled, it executes a noop
@@ -48,22 +77,22 @@ var Debug = newConditionalLogger(os.Stderr, "go-hbci: ", debugFlags, &debugMode)
 // Info is a logger which logs when infoMode is enabled. If disabled, it executes a noop
 var Info = newConditionalLogger(os.Stderr, "go-hbci: ", log.LstdFlags, &infoMode)
 
-func newConditionalLogger(w io.Writer, prefix string, flag int, condition *bool) *log.Logger {
+func newConditionalLogger(w io.Writer, prefix string, flag int, condition *toggle) *log.Logger {
 	condWriter := newConditionalWriter(w, condition)
 	return log.New(condWriter, prefix, flag)
 }
 
-func newConditionalWriter(w io.Writer, condition *bool) io.Writer {
+func newConditionalWriter(w io.Writer, condition *toggle) io.Writer {
 	return &conditionalWriter{Writer: w, condition: condition}
 }
 
 type conditionalWriter struct {
-	condition *bool
+	condition *toggle
 	io.Writer
 }
 
 func (c *conditionalWriter) Write(p []byte) (n int, err error) {
-	if *c.condition {
+	if c.condition.enabled() {
 		return c.Writer.Write(p)
 	}
 	return 0, nil
-- 
2.43.0

