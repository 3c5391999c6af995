From 13e7bda1e399a93e9be9929494c0310c1501a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 01/14] fix: do not leak fields of the previous number when
 parsing into a reused message

---
 phonenumberutil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 621e61c..2332c49 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2638,6 +2638,8 @@ func Parse(numberToParse, defaultRegion string) (*PhoneNumber, error) {
 // Same as Parse(string, string), but accepts mutable PhoneNumber as a
 // parameter to decrease object creation when invoked many times.
 func ParseToNumber(numberToParse, defaultRegion string, phoneNumber *PhoneNumber) error {
+	// A reused message must not keep fields of the number it held before.
+	proto.Reset(phoneNumber)
 	return parseHelper(numberToParse, defaultRegion, false, true, phoneNumber)
 }
 
@@ -2658,6 +2660,8 @@ func ParseAndKeepRawInput(
 func ParseAndKeepRawInputToNumber(
 	numberToParse, defaultRegion string,
 	phoneNumber *PhoneNumber) error {
+	// A reused message must not keep fields of the number it held before.
+	proto.Reset(phoneNumber)
 	return parseHelper(numberToParse, defaultRegion, true, true, phoneNumber)
 }
 
-- 
2.43.0


From cefe5921319ae574bea0b598a241259ac926ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 02/14] fix: only a leading plus sign rules out an emergency
 number

---
 shortnumberinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shortnumberinfo.go b/shortnumberinfo.go
index a751908..69723fd 100644
--- a/shortnumberinfo.go
+++ b/shortnumberinfo.go
@@ -336,7 +336,7 @@ func matchesEmergencyNumber(number string, regionCode string, allowPrefixMatch b
 	// Returns false if the number starts with a plus sign. We don't believe dialing the country
 	// code before emergency numbers (e.g. +1911) works, but later, if that proves to work, we can
 	// add additional logic here to handle it.
-	if plusCharsPattern.MatchString(possibleNumber) {
+	if loc := plusCharsPattern.FindStringIndex(possibleNumber); loc != nil && loc[0] == 0 {
 		return false
 	}
 
-- 
2.43.0


From c3c5b413cae768b0f2e81cfe86ab2acc35b3985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 03/14] fix: do not panic verifying grouping of a candidate
 shorter than the country code

---
 phonenumbermatcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phonenumbermatcher.go b/phonenumbermatcher.go
index 73ad4f5..2f31b6b 100644
--- a/phonenumbermatcher.go
+++ b/phonenumbermatcher.go
@@ -380,6 +380,9 @@ func allNumberGroupsRemainGrouped(
 		// First skip the country code if the normalized candidate contained it.
 		countryCode := strconv.Itoa(int(number.GetCountryCode()))
 		fromIndex = strings.Index(normalizedCandidate, countryCode) + len(countryCode)
+		if fromIndex > len(normalizedCandidate) {
+			return false
+		}
 	}
 	// Check each group of consecutive digits is not broken into separate
 	// groupings in the normalizedCandidate string.
-- 
2.43.0


From 2102b78487f4818f02b3ce54304460e744b48990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:26 +0000
Subject: [PATCH 04/14] fix: treat a leading full-width plus sign as a plus
 sign when formatting as you type

---
 asyoutypeformatter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index 1de359a..619a56c 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -634,9 +634,9 @@ func (aytf *AsYouTypeFormatter) attemptToExtractCountryCallingCode() bool {
 // assumes its input is either a digit or the plus sign.
 func (aytf *AsYouTypeFormatter) normalizeAndAccrueDigitsAndPlusSign(nextChar rune, rememberPosition bool) rune {
 	var normalizedChar rune
-	if nextChar == plusSign {
-		normalizedChar = nextChar
-		aytf.accruedInputWithoutFormatting.WriteRune(nextChar)
+	if nextChar == plusSign || nextChar == '\uFF0B' {
+		normalizedChar = plusSign
+		aytf.accruedInputWithoutFormatting.WriteRune(normalizedChar)
 	} else {
 		if v, ok := character.Digit(nextChar); ok {
 			normalizedChar = v
-- 
2.43.0


From 2c73c1cc724c8576d28f32bc6d1ecfc58c7bea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:26 +0000
Subject: [PATCH 05/14] fix: do not panic geocoding in a language without
 region display names

---
 geocoding/geocoding.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocoding/geocoding.go b/geocoding/geocoding.go
index f986de1..65d93eb 100644
--- a/geocoding/geocoding.go
+++ b/geocoding/geocoding.go
@@ -131,5 +131,9 @@ func regionDisplayName(regionCode, lang string) string {
 	if err != nil {
 		langT = language.English // fall back to english only for rendering the country name
 	}
-	return display.Regions(langT).Name(reg)
+	namer := display.Regions(langT)
+	if namer == nil {
+		namer = display.Regions(language.English) // no display names at all for this language
+	}
+	return namer.Name(reg)
 }
-- 
2.43.0


From 2487a3a4ab845948d03049df931cc03f44657dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:26 +0000
Subject: [PATCH 06/14] fix: return copies of the supported region and code
 sets and time zone lists

---
 phonenumberutil.go   | 10 ++++++----
 timezone/timezone.go |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 2332c49..cd19871 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -4,8 +4,10 @@ package phonenumbers
 import (
 	"errors"
 	"iter"
+	"maps"
 	"math"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -702,7 +704,7 @@ func normalizeHelper(number string,
 
 // GetSupportedRegions returns all regions the library has metadata for.
 func GetSupportedRegions() map[string]bool {
-	return metadata.SupportedRegions()
+	return maps.Clone(metadata.SupportedRegions())
 }
 
 // GetSupportedCallingCodes returns all country calling codes the library has metadata for, covering both non-geographical
@@ -710,12 +712,12 @@ func GetSupportedRegions() map[string]bool {
 // used to populate a drop-down box of country calling codes for a phone-number widget, for
 // instance.
 func GetSupportedCallingCodes() map[int]bool {
-	return metadata.SupportedCallingCodes()
+	return maps.Clone(metadata.SupportedCallingCodes())
 }
 
 // GetSupportedGlobalNetworkCallingCodes returns all global network calling codes the library has metadata for.
 func GetSupportedGlobalNetworkCallingCodes() map[int]bool {
-	return metadata.CountryCodesForNonGeographicalRegion()
+	return maps.Clone(metadata.CountryCodesForNonGeographicalRegion())
 }
 
 // allPhoneNumberTypes lists every PhoneNumberType, used to iterate types like
@@ -2026,7 +2028,7 @@ func GetRegionCodeForCountryCode(countryCallingCode int) string {
 // an empty list is returned.
 func GetRegionCodesForCountryCode(countryCallingCode int) []string {
 	var regionCodes []string = metadata.CountryCodeToRegion()[countryCallingCode]
-	return regionCodes
+	return slices.Clone(regionCodes)
 }
 
 // Returns the country calling code for a specific region. For example, this
diff --git a/timezone/timezone.go b/timezone/timezone.go
index d9e782c..29a21b0 100644
--- a/timezone/timezone.go
+++ b/timezone/timezone.go
@@ -4,6 +4,7 @@ package timezone
 import (
 	_ "embed"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -79,7 +80,7 @@ func lookupTimeZones(number string) ([]string, error) {
 		}
 		tzs, found := timezoneMap.Map[index]
 		if found {
-			return tzs, nil
+			return slices.Clone(tzs), nil
 		}
 	}
 	return []string{Unknown}, nil
-- 
2.43.0


From bb94704d6288076f8a577fb1c15de50a821c3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:12 +0000
Subject: [PATCH 07/14] fix: expand group references in formats exactly,
 whatever text follows them

---
 phonenumberutil.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index cd19871..2d0c8e2 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -390,6 +390,9 @@ var (
 	fgPattern         = regexp.MustCompile(`\$FG`)
 	ccPattern         = regexp.MustCompile(`\$CC`)
 
+	// groupReferencePattern captures the group number of a $-token.
+	groupReferencePattern = regexp.MustCompile(`\$(\d)`)
+
 	// A pattern that is used to determine if the national prefix
 	// formatting rule has the first group only, i.e., does not start
 	// with the national prefix. Note that the pattern explicitly allows
@@ -1589,6 +1592,13 @@ func formatNsnUsingPattern(
 		nationalNumber, formattingPattern, numberFormat, "")
 }
 
+// braceGroupReferences turns the "$1" group references of a formatting rule into
+// "${1}", so that a letter or digit right after one is not taken as part of the
+// group's name as it otherwise is by the regexp package.
+func braceGroupReferences(rule string) string {
+	return groupReferencePattern.ReplaceAllString(rule, "$${${1}}")
+}
+
 // Note that carrierCode is optional - if null or an empty string, no
 // carrier code replacement will take place.
 func formatNsnUsingPatternWithCarrier(
@@ -1626,10 +1636,10 @@ func formatNsnUsingPatternWithCarrier(
 		fgp := numberFormatRule
 		if loc := firstGroupPattern.FindStringSubmatchIndex(numberFormatRule); loc != nil {
 			expanded := firstGroupPattern.ExpandString(
-				nil, carrierCodeFormattingRule, numberFormatRule, loc)
+				nil, braceGroupReferences(carrierCodeFormattingRule), numberFormatRule, loc)
 			fgp = numberFormatRule[:loc[0]] + string(expanded) + numberFormatRule[loc[1]:]
 		}
-		formattedNationalNumber = m.ReplaceAllString(nationalNumber, fgp)
+		formattedNationalNumber = m.ReplaceAllString(nationalNumber, braceGroupReferences(fgp))
 	} else {
 		// Use the national prefix formatting rule instead.
 		nationalPrefixFormattingRule :=
@@ -1644,14 +1654,14 @@ func formatNsnUsingPatternWithCarrier(
 			fgp := numberFormatRule
 			if loc := firstGroupPattern.FindStringSubmatchIndex(numberFormatRule); loc != nil {
 				expanded := firstGroupPattern.ExpandString(
-					nil, nationalPrefixFormattingRule, numberFormatRule, loc)
+					nil, braceGroupReferences(nationalPrefixFormattingRule), numberFormatRule, loc)
 				fgp = numberFormatRule[:loc[0]] + string(expanded) + numberFormatRule[loc[1]:]
 			}
-			formattedNationalNumber = m.ReplaceAllString(nationalNumber, fgp)
+			formattedNationalNumber = m.ReplaceAllString(nationalNumber, braceGroupReferences(fgp))
 		} else {
 			formattedNationalNumber = m.ReplaceAllString(
 				nationalNumber,
-				numberFormatRule,
+				braceGroupReferences(numberFormatRule),
 			)
 		}
 	}
-- 
2.43.0


From 8b26de73637f50603e2584a5997aeb065b400224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 08/14] fix: remembered as-you-type position when the text is
 formatted for the last time

---
 asyoutypeformatter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index 619a56c..f32458c 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -461,7 +461,9 @@ func (aytf *AsYouTypeFormatter) attemptToFormatAccruedDigits() string {
 // phone number of the character which was previously passed in as the parameter
 // of InputDigitAndRememberPosition.
 func (aytf *AsYouTypeFormatter) GetRememberedPosition() int {
-	if !aytf.ableToFormat {
+	// The output can be formatted even when formatting is no longer possible from
+	// here on, so what matters is whether it is the input as it was typed.
+	if aytf.currentOutput == aytf.accruedInput.String() {
 		return aytf.originalPosition
 	}
 	// Positions are tracked as rune counts, which match Java's UTF-16 char positions
-- 
2.43.0


From 402e318a38e521889b24622b7f491e8198a1ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:54 +0000
Subject: [PATCH 09/14] fix: as-you-type formatting lost digits after a longer
 national prefix was found

---
 asyoutypeformatter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index f32458c..feb6ce6 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -421,7 +421,14 @@ func (aytf *AsYouTypeFormatter) ableToExtractLongerNdd() bool {
 		indexOfPreviousNdd := aytf.prefixBeforeNationalNumber.LastIndexOf(aytf.extractedNationalPrefix)
 		aytf.prefixBeforeNationalNumber.SetLength(indexOfPreviousNdd)
 	}
-	return aytf.extractedNationalPrefix != aytf.removeNationalPrefixFromNationalNumber()
+	previousNdd := aytf.extractedNationalPrefix
+	newNdd := aytf.removeNationalPrefixFromNationalNumber()
+	if len(previousNdd) > 0 {
+		// The new NDD takes the place of the previous one, and is what has to be put
+		// back if we get here again.
+		aytf.extractedNationalPrefix = newNdd
+	}
+	return previousNdd != newNdd
 }
 
 func (aytf *AsYouTypeFormatter) isDigitOrLeadingPlusSign(nextChar rune) bool {
-- 
2.43.0


From f0501ec455773bbb8f7aa0af71585f35e2b5aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:06 +0000
Subject: [PATCH 10/14] fix: store extensions in ASCII digits whatever script
 they are written in

---
 phonenumberutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 2d0c8e2..332b6d4 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2615,7 +2615,7 @@ func maybeStripExtension(number *stringbuilder.Builder) string {
 			// that captured some digits. If none did, then we will
 			// return the empty string.
 			number.ResetWithString(numStr[0:ind[0]])
-			return extension
+			return NormalizeDigitsOnly(extension)
 		}
 	}
 	return ""
-- 
2.43.0


From 0b215754b4d9d65992a2e1df82a6887913d10fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:04 +0000
Subject: [PATCH 11/14] fix: expand group references of transform rules and
 as-you-type formats exactly

---
 asyoutypeformatter.go | 4 ++--
 phonenumberutil.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index feb6ce6..bc6e716 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -264,7 +264,7 @@ func (aytf *AsYouTypeFormatter) getFormattingTemplate(numberPattern, numberForma
 		return ""
 	}
 	// Formats the number according to numberFormat.
-	template := m.ReplaceAllString(aPhoneNumber, numberFormat)
+	template := m.ReplaceAllString(aPhoneNumber, braceGroupReferences(numberFormat))
 	// Replaces each digit with character digitPlaceholder.
 	template = strings.ReplaceAll(template, "9", digitPlaceholder)
 	return template
@@ -446,7 +446,7 @@ func (aytf *AsYouTypeFormatter) attemptToFormatAccruedDigits() string {
 		if m.MatchString(aytf.nationalNumber.String()) {
 			aytf.shouldAddSpaceAfterNationalPrefix =
 				nationalPrefixSeparatorsPattern.MatchString(numberFormat.GetNationalPrefixFormattingRule())
-			formattedNumber := m.ReplaceAllString(aytf.nationalNumber.String(), numberFormat.GetFormat())
+			formattedNumber := m.ReplaceAllString(aytf.nationalNumber.String(), braceGroupReferences(numberFormat.GetFormat()))
 			// Check that we did not remove nor add any extra digits when we matched this
 			// formatting pattern. This usually happens after we entered the last digit during
 			// AYTF. Eg: In case of MX, we swallow mobile token (1) when formatted but AYTF should
diff --git a/phonenumberutil.go b/phonenumberutil.go
index 332b6d4..87a8469 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2579,7 +2579,7 @@ func maybeStripNationalPrefixAndCarrierCode(
 			// return. Check this by copying the string buffer and
 			// making the transformation on the copy first.
 			numString := number.String()
-			transformedNumBytes := []byte(prefixMatcher.ReplaceAllString(numString, transformRule))
+			transformedNumBytes := []byte(prefixMatcher.ReplaceAllString(numString, braceGroupReferences(transformRule)))
 			if isViableOriginalNumber &&
 				!nationalNumberRule.Match(transformedNumBytes) {
 				return false
-- 
2.43.0


From a5cb9c7d7a7557e568b12faf2233ba79afc455a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:26 +0000
Subject: [PATCH 12/14] fix: reject non-numeric possible lengths instead of
 reading them as 0

---
 internal/metadatabuilder/metadatabuilder.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/metadatabuilder/metadatabuilder.go b/internal/metadatabuilder/metadatabuilder.go
index 1157df9..c58539b 100644
--- a/internal/metadatabuilder/metadatabuilder.go
+++ b/internal/metadatabuilder/metadatabuilder.go
@@ -334,8 +334,8 @@ func parsePossibleLengthStringToSet(possibleLengthString string) map[int32]bool
 			if len(minMax) != 2 {
 				panic(fmt.Sprintf("Ranges must have exactly one - character: missing for %s.", possibleLengthString))
 			}
-			min, _ := strconv.Atoi(minMax[0])
-			max, _ := strconv.Atoi(minMax[1])
+			min := parsePossibleLength(minMax[0], possibleLengthString)
+			max := parsePossibleLength(minMax[1], possibleLengthString)
 
 			// We don't even accept [6-7] since we prefer the shorter 6,7 variant; for a range to be in
 			// use the hyphen needs to replace at least one digit.
@@ -347,13 +347,21 @@ func parsePossibleLengthStringToSet(possibleLengthString string) map[int32]bool
 				lengthSet[int32(j)] = true
 			}
 		} else {
-			length, _ := strconv.Atoi(lengthSubstring)
+			length := parsePossibleLength(lengthSubstring, possibleLengthString)
 			lengthSet[int32(length)] = true
 		}
 	}
 	return lengthSet
 }
 
+func parsePossibleLength(length string, possibleLengthString string) int {
+	value, err := strconv.Atoi(length)
+	if err != nil {
+		panic(fmt.Sprintf("Invalid number %q in possible length string %s.", length, possibleLengthString))
+	}
+	return value
+}
+
 /**
  * Reads the possible lengths present in the metadata and splits them into two sets: one for
  * full-length numbers, one for local numbers.
-- 
2.43.0


From e3d8ede7ba4d62ad5cab65779c9f6f4d39a7fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 13/14] fix: look for the rest of a time stamp only right
 behind the candidate

The unanchored pattern scanned the whole remaining text for every candidate
that ends like a time stamp, so searching took time quadratic in the text.
---
 phonenumbermatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phonenumbermatcher.go b/phonenumbermatcher.go
index 2f31b6b..9a5055a 100644
--- a/phonenumbermatcher.go
+++ b/phonenumbermatcher.go
@@ -32,7 +32,7 @@ var (
 	// timeStamps matches timestamps, e.g. "2012-01-02 08:00". The trailing
 	// ":\d\d" is covered by timeStampsSuffix.
 	timeStamps       = regexp.MustCompile(`[12]\d{3}[-/]?[01]\d[-/]?[0-3]\d +[0-2]\d$`)
-	timeStampsSuffix = regexp.MustCompile(`:[0-5]\d`)
+	timeStampsSuffix = regexp.MustCompile(`^:[0-5]\d`)
 
 	// matchingBrackets checks that brackets match: opening brackets should be
 	// closed within a phone number. Anchored for full-string (.matches()).
-- 
2.43.0


From 12511bbc34a4436f60b2ab2196e555ab4599ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 14/14] fix: put the carrier code into the formatted number as
 it is

---
 phonenumberutil.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 87a8469..97afeb4 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -1614,7 +1614,9 @@ func formatNsnUsingPatternWithCarrier(
 	if numberFormat == NATIONAL &&
 		len(carrierCode) > 0 &&
 		len(formattingPattern.GetDomesticCarrierCodeFormattingRule()) > 0 {
-		// Replace the $CC in the formatting rule with the desired carrier code.
+		// Replace the $CC in the formatting rule with the desired carrier code. The
+		// rule is expanded twice below, so it is escaped here to come out as $CC of
+		// that, and is replaced last: a $ in the carrier code is no group reference.
 		carrierCodeFormattingRule := formattingPattern.GetDomesticCarrierCodeFormattingRule()
 		i := 1
 		carrierCodeFormattingRule =
@@ -1622,7 +1624,7 @@ func formatNsnUsingPatternWithCarrier(
 				func(s string) string {
 					if i > 0 {
 						i -= 1
-						return carrierCode
+						return "$$$$CC"
 					}
 					return s
 				})
@@ -1639,7 +1641,8 @@ func formatNsnUsingPatternWithCarrier(
 				nil, braceGroupReferences(carrierCodeFormattingRule), numberFormatRule, loc)
 			fgp = numberFormatRule[:loc[0]] + string(expanded) + numberFormatRule[loc[1]:]
 		}
-		formattedNationalNumber = m.ReplaceAllString(nationalNumber, braceGroupReferences(fgp))
+		formattedNationalNumber = strings.ReplaceAll(
+			m.ReplaceAllString(nationalNumber, braceGroupReferences(fgp)), "$CC", carrierCode)
 	} else {
 		// Use the national prefix formatting rule instead.
 		nationalPrefixFormattingRule :=
-- 
2.43.0

