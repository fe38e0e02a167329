From bd07ea9427f6581e1ff4c9f7194ac5976101d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 01/63] fix: read amounts of any number of digits without
 overflow

---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..202ea22 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -146,14 +146,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	num := big.NewInt(0)
+	mag := big.NewInt(1)
+	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -172,8 +173,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return new(big.Rat).SetFrac(num, mag)
 }
-- 
2.43.0


From 7d217c9dc7b07adbd09c8ce14b82df3d058ee619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 02/63] fix: a NUL byte in a ledger is not the end of the file

---
 loader/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 202ea22..eaafd9a 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -18,7 +18,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
-- 
2.43.0


From 2e1bfb42c470ccfb588ae6b6b7e9f37443984958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 03/63] fix: return an error for a missing or unreadable ledger
 file instead of exiting in the loader

---
 loader/lexer.go  | 3 +--
 loader/parser.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index eaafd9a..8d49008 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -110,7 +109,7 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("%v", err)
 	}
 	rr.ch = r
 	if rr.ch == eol {
diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..4972b0a 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -203,7 +202,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return fmt.Errorf("parsing failure: %w", err)
 	}
 	defer file.Close()
 
-- 
2.43.0


From cd3bd057e0443b4a00b2d50b80d68c8b040932a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/63] fix: a ledger file that includes itself is an error,
 not endless recursion

---
 loader/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 4972b0a..cb28aa0 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -194,12 +194,20 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil)
+	return parseFileLocal(loader, filename, nil, nil)
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []string) (reterr error) {
 	reterr = nil
 
+	// A file can't include itself, directly or through others
+	for _, parent := range parents {
+		if parent == filename {
+			return fmt.Errorf("parsing failure: %s: file includes itself", filename)
+		}
+	}
+	parents = append(parents, filename)
+
 	file, err := os.Open(filename)
 	if err != nil {
 		return fmt.Errorf("parsing failure: %w", err)
@@ -261,7 +269,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
+				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 01de50f163abb8a3c7bc1ac02d16eb61c3d25485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 05/63] fix: reject dates in a ledger that are not calendar
 dates

---
 book/date.go    | 15 +++++++++++++++
 loader/lexer.go |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..aa54f19 100644
--- a/book/date.go
+++ b/book/date.go
@@ -151,6 +151,21 @@ func GetDate(year int, month int, day int) Date {
 	return d
 }
 
+// Is the date an existing calendar date of the years 1 to 9999
+func (date Date) IsValid() bool {
+	year := int(date / 10000)
+	month := int(date/100) % 100
+	day := int(date % 100)
+	if year < 1 || year > 9999 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+	daysInMonth := monthDays[month-1]
+	if month == 2 && YearIsLeapYear(year-1) {
+		daysInMonth += 1
+	}
+	return day <= daysInMonth
+}
+
 func (date Date) DaysSince(d2 Date) int {
 	return date.AsDays() - d2.AsDays()
 }
diff --git a/loader/lexer.go b/loader/lexer.go
index 8d49008..93bd89d 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -74,6 +74,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("invalid date %s", book.Date(date))
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From d8e72d5a47594994ca8b36ae03cf355afc67103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 06/63] fix: reject incomplete ledger lines and text left over
 on a line instead of misreading them

---
 loader/lexer.go  | 16 +++++++++++
 loader/parser.go | 74 ++++++++++++++++++++++++++++--------------------
 2 files changed, 59 insertions(+), 31 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 93bd89d..bf6664f 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -124,6 +124,16 @@ func (rr *basicReader) next() rune {
 	return r
 }
 
+// Nothing may be left on the line
+func (rr *basicReader) consumeEOL() {
+	rr.consumeWS()
+	if rr.ch == eol {
+		rr.next()
+	} else if rr.ch != eof {
+		rr.stop("expected end of line, got '%c'", rr.ch)
+	}
+}
+
 func (rr *basicReader) parseQuotedString() string {
 	rr.consume('"')
 
@@ -148,11 +158,13 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
+	hasDigit := false
 	num := big.NewInt(0)
 	mag := big.NewInt(1)
 	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
+			hasDigit = true
 			num.Mul(num, ten)
 			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
@@ -174,6 +186,10 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		break
 	}
 
+	if !hasDigit {
+		rr.stop("expected amount, got '%c'", rr.ch)
+	}
+
 	if isNeg {
 		num.Neg(num)
 	}
diff --git a/loader/parser.go b/loader/parser.go
index cb28aa0..73a3f81 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -70,9 +70,7 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.consumeEOL()
 	return date, payee, note
 }
 
@@ -128,16 +126,18 @@ func IsCCYRune(c rune) bool {
 		(c < '0' || c > '9'))
 }
 
-func (rr *basicReader) parseCCYAmt() (string, *big.Rat) {
+func (rr *basicReader) parseCCYAmt() (ccy string, amt *big.Rat) {
 	if rr.ch == '"' || IsCCYRune(rr.ch) {
-		ccy := rr.parseCCY()
-		amt := rr.parseAmt()
-		return ccy, amt
+		ccy = rr.parseCCY()
+		amt = rr.parseAmt()
 	} else {
-		amt := rr.parseAmt()
-		ccy := rr.parseCCY()
-		return ccy, amt
+		amt = rr.parseAmt()
+		ccy = rr.parseCCY()
 	}
+	if ccy == "" {
+		rr.stop("expected currency for amount, got '%c'", rr.ch)
+	}
+	return ccy, amt
 }
 
 func (rr *basicReader) parseCCY() string {
@@ -178,12 +178,14 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	_ = rr.consumeWS()
 	_ = rr.parseTime()
 	unit := rr.parseCCY()
+	if unit == "" {
+		rr.stop("expected unit for price, got '%c'", rr.ch)
+	}
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
-	}
+	_ = rr.parseNote()
+	rr.consumeEOL()
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -275,6 +277,9 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				}
 			} else if command == "ALIAS" {
 				shortAcct := rr.parseAccount()
+				if shortAcct == "" {
+					rr.stop("expected account after alias, got '%c'", rr.ch)
+				}
 				rr.consumeWS()
 				if rr.ch != '=' {
 					rr.stop("expected '=' after alias, got '%c'", rr.ch)
@@ -286,7 +291,8 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if longAcct == "" {
 					rr.stop("expected account for alias, got empty account")
 				}
-				rr.parseToEOL()
+				_ = rr.parseNote()
+				rr.consumeEOL()
 				nmap[shortAcct] = longAcct
 			} else {
 				rr.stop("expected include or alias")
@@ -304,33 +310,39 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]string) {
 	_ = rr.consumeWS()
 	acct := rr.parseAccount()
+	if acct == "" {
+		rr.stop("expected account for posting, got '%c'", rr.ch)
+	}
 	nacct, ok := alias[acct]
 	if ok {
 		acct = nacct
 	}
 	_ = rr.consumeWS()
-	isNeg := false
-	if rr.ch == '-' {
-		rr.next()
-		isNeg = true
-	}
-	ccy, dec := rr.parseCCYAmt()
-	if isNeg {
-		dec.Neg(dec)
-	}
-	_ = rr.consumeWS()
-	if rr.ch == '@' {
-		rr.next()
+
+	// An amount is optional
+	ccy := ""
+	var dec *big.Rat
+	if rr.ch != eof && rr.ch != eol && rr.ch != ';' {
+		isNeg := false
+		if rr.ch == '-' {
+			rr.next()
+			isNeg = true
+		}
+		ccy, dec = rr.parseCCYAmt()
+		if isNeg {
+			dec.Neg(dec)
+		}
 		_ = rr.consumeWS()
-		_, _ = rr.parseCCYAmt()
+		if rr.ch == '@' {
+			rr.next()
+			_ = rr.consumeWS()
+			_, _ = rr.parseCCYAmt()
+		}
 	}
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.consumeEOL()
 
 	if ccy == "" {
-		// ASSERT: dec should be 0
 		var ZERO big.Int
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
-- 
2.43.0


From 7d2dcf65bd8590ee0d372e5d2acaa0cd060451cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 07/63] fix: report the line an error is on when it is found at
 the end of that line

---
 loader/lexer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index bf6664f..4e8e7f7 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -108,6 +108,10 @@ func (rr *basicReader) consume(e rune) {
 }
 
 func (rr *basicReader) next() rune {
+	if rr.ch == eol {
+		rr.row++
+		rr.col = 0
+	}
 	r, _, err := rr.reader.ReadRune()
 	if err == io.EOF {
 		r = eof
@@ -115,12 +119,7 @@ func (rr *basicReader) next() rune {
 		rr.stop("%v", err)
 	}
 	rr.ch = r
-	if rr.ch == eol {
-		rr.row++
-		rr.col = 0
-	} else {
-		rr.col++
-	}
+	rr.col++
 	return r
 }
 
-- 
2.43.0


From 6102528784fbeee9c77f29baff5f98333f215d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 08/63] fix: a posting outside of any transaction is an error
 that names file and line

---
 book/builder.go  | 4 ++++
 loader/lexer.go  | 5 +----
 loader/parser.go | 8 +++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..8140d88 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -105,6 +105,10 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 }
 
 func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
+	if b.currDate == Date(-1) {
+		panic(fmt.Sprintf("Posting to %s is outside of any transaction!", acct))
+	}
+
 	b.post = append(b.post, Posting{
 		date:  b.currDate,
 		payee: b.currPayee,
diff --git a/loader/lexer.go b/loader/lexer.go
index 4e8e7f7..789ba06 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -26,14 +26,11 @@ func newRuneReader(r *bufio.Reader) *basicReader {
 		row:    1,
 		col:    0,
 	}
-	rr.next()
 	return rr
 }
 
 func (rr *basicReader) stop(msgf string, args ...interface{}) {
-	pos := fmt.Sprintf("%d:%d: ", rr.row, rr.col)
-	msg := fmt.Sprintf(msgf, args...)
-	panic(pos + msg)
+	panic(fmt.Sprintf(msgf, args...))
 }
 
 func (rr *basicReader) parseIdentifier() string {
diff --git a/loader/parser.go b/loader/parser.go
index 73a3f81..da10997 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -216,9 +216,10 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 	}
 	defer file.Close()
 
+	rr := newRuneReader(bufio.NewReader(file))
 	defer func() {
 		if msg := recover(); msg != nil {
-			reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)
+			reterr = fmt.Errorf("parsing failure: %s: %d:%d: %s", filename, rr.row, rr.col, msg)
 		}
 	}()
 
@@ -230,7 +231,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 		}
 	}
 
-	rr := newRuneReader(bufio.NewReader(file))
+	rr.next()
 	for rr.ch != eof {
 
 		// Move forward to first non-whitespace
@@ -340,7 +341,6 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		}
 	}
 	note := rr.parseNote()
-	rr.consumeEOL()
 
 	if ccy == "" {
 		var ZERO big.Int
@@ -356,5 +356,7 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		loader.AddPosting(acct, ccy, dec, note)
 	}
 
+	rr.consumeEOL()
+
 	// TODO: Add Pricing!
 }
-- 
2.43.0


From aec313e82cab4bc3290bd57001a5a38cf2f21b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 09/63] fix: return an error when the last transaction of a
 ledger does not balance

---
 loader/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index da10997..941780a 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -196,7 +196,18 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil, nil)
+	if err := parseFileLocal(loader, filename, nil, nil); err != nil {
+		return err
+	}
+
+	// The last transaction needs to balance as well
+	for ccy, amt := range loader.GetLastCCYBals() {
+		if amt.Sign() != 0 {
+			return fmt.Errorf("parsing failure: %s: last transaction, ccy %s has balance of %s!", filename, ccy, amt)
+		}
+	}
+
+	return nil
 }
 
 func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []string) (reterr error) {
-- 
2.43.0


From cc015309ea05b9fac471626d657b45201042d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 10/63] fix: loading the same ledger twice keeps the same notes
 on merged postings

---
 book/book_compact.go |  4 ++--
 loader/parser.go     | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/book/book_compact.go b/book/book_compact.go
index fd00b62..87fc904 100644
--- a/book/book_compact.go
+++ b/book/book_compact.go
@@ -12,8 +12,8 @@ func (b *Book) compact() {
 		return
 	}
 
-	// Sort
-	sort.Slice(b.post, func(i, j int) bool {
+	// Sort (stable: which note is kept when adding up doesn't vary)
+	sort.SliceStable(b.post, func(i, j int) bool {
 		return b.post[i].isLess(&b.post[j])
 	})
 
diff --git a/loader/parser.go b/loader/parser.go
index 941780a..013a21a 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -8,6 +8,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"unicode"
 )
@@ -354,11 +355,19 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	note := rr.parseNote()
 
 	if ccy == "" {
+		// In a fixed order, so that loading is repeatable
+		bals := loader.GetLastCCYBals()
+		ccys := make([]string, 0, len(bals))
+		for ccy := range bals {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+
 		var ZERO big.Int
-		for ccy, dec := range loader.GetLastCCYBals() {
-			if dec.Num().Cmp(&ZERO) != 0 {
+		for _, ccy := range ccys {
+			if bals[ccy].Num().Cmp(&ZERO) != 0 {
 				var x big.Rat
-				x.Neg(dec)
+				x.Neg(bals[ccy])
 				loader.AddPosting(acct, ccy, &x, note)
 			}
 		}
-- 
2.43.0


From e4fde892733a1604179e2201266d40ec44bdcc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 11/63] fix: register in descending order lists every entry
 instead of crashing

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..87a1cbe 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := 0; i < len(report); i++ {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From afa737bce2571138b13a5c2a13650c9879bafb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 12/63] fix: text report of an empty or unsummarised book
 prints a header or an error instead of crashing

---
 book/book_accum.go  |  3 +++
 cmd/reports/text.go | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..ebb42df 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -329,6 +329,9 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 
 	// Turn into transactions
 	trans := make([]Transaction, 0, len(eposts))
+	if len(eposts) == 0 {
+		return trans
+	}
 	lastIdx := 0
 	i = 1
 	for {
diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..b730172 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -10,7 +10,10 @@ import (
 func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Main transaction (reference one)
-	postingTrans := trans[len(trans)-1]
+	var postingTrans book.Transaction
+	if len(trans) > 0 {
+		postingTrans = trans[len(trans)-1]
+	}
 
 	fmts := make([]bool, len(trans)+1)
 	fmts[0] = false
@@ -75,6 +78,19 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
+	// Every account needs an amount in every transaction
+	for _, v := range postingTrans {
+		for i, col := range rows[idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]] {
+			if col == nil {
+				return fmt.Errorf("account %s (term %s) currency %s not on transaction %s; must summarise!",
+					v.GetAccount(),
+					v.GetAccountTerm(),
+					v.GetCCY(),
+					trans[i-1].GetDate())
+			}
+		}
+	}
+
 	b.PrintColumns(rows, fmts)
 
 	return nil
-- 
2.43.0


From 37f182bcc574e5e77f2c0b9c374d14eedfb8acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 13/63] fix: the default configuration file is accepted by
 later runs

---
 cmd/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..e00eca9 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,7 +86,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -122,12 +122,12 @@ const DEFAULT_CONFIG_FILE = `
 #
 [report]
 combineby = "today"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
-- 
2.43.0


From 86fd26eb67c5f3e1730732db4958805d31508661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 14/63] fix: report, register and export options set in the
 configuration file are checked like flags

---
 cmd/export/export.go     | 5 +++++
 cmd/register/register.go | 5 +++++
 cmd/reports/report.go    | 5 +++++
 cmd/utils/types.go       | 8 ++++++++
 4 files changed, 23 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index 350531c..7735572 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -38,6 +38,11 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		for _, e := range []*utils.Enum{exportType} {
+			if err := e.Check(); err != nil {
+				return err
+			}
+		}
 		return export.run(app, cmd, args)
 	}
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..767e7b9 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -57,6 +57,11 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	ncmd.Flags().BoolVar(&reg.Split, "split", reg.Split, "split multiple counteraccounts into separate postings")
 	ncmd.Flags().BoolVar(&reg.Convert, "convert", reg.Convert, "convert postings to base currency")
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		for _, e := range []*utils.Enum{reportType} {
+			if err := e.Check(); err != nil {
+				return err
+			}
+		}
 		return reg.run(app, cmd, args)
 	}
 
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..344ba23 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -88,6 +88,11 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		for _, e := range []*utils.Enum{floorType, reportType} {
+			if err := e.Check(); err != nil {
+				return err
+			}
+		}
 		return report.run(app, cmd, args)
 	}
 }
diff --git a/cmd/utils/types.go b/cmd/utils/types.go
index a5e1ee8..0dc0c93 100644
--- a/cmd/utils/types.go
+++ b/cmd/utils/types.go
@@ -73,6 +73,14 @@ func (e *Enum) Set(value string) error {
 	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
 }
 
+// Check a value that was set by configuration instead of a flag
+func (e *Enum) Check() error {
+	if *e.Value == "" {
+		return nil
+	}
+	return e.Set(*e.Value)
+}
+
 func (e *Enum) String() string {
 	return *e.Value
 }
-- 
2.43.0


From 9d6cf6c43ca08bfed2c8106440a61a1ca6393bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 15/63] fix: show as many decimals of a currency as its amounts
 need

---
 book/builder.go | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 8140d88..13e04aa 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -18,27 +18,14 @@ type Builder struct {
 func (b *Builder) Build() *Book {
 	b.checkAndClearTransaction()
 
-	// Get the largest denominators by currency
-	mmap := make(map[string]*big.Int)
-	for _, p := range b.post {
-		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
-		}
-	}
-
-	// Convert to number of decimals
+	// Get the largest number of decimals by currency
 	rmap := make(map[string]int)
-	ten := big.NewInt(10)
-	for k, v := range mmap {
-		p := big.NewInt(1)
-		c := 0
-		// for as long as Denom is bigger keep doing p = p * 10
-		for p.Cmp(v) < 0 {
-			p.Mul(p, ten)
-			c += 1
+	for _, p := range b.post {
+		n, _ := p.GetAmount().FloatPrec()
+		eval, ok := rmap[p.GetCCY()]
+		if !ok || eval < n {
+			rmap[p.GetCCY()] = n
 		}
-		rmap[k] = c
 	}
 
 	nbook := &Book{
-- 
2.43.0


From 2efe3118c09974dc7c53632dceff3f5cf7d449ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 16/63] fix: ledger export is exact and can be loaded back in
 every language

---
 cmd/app/print.go     | 32 ++++++++++++++++++++++++++++++++
 cmd/export/ledger.go |  8 +++++---
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..2e5bc22 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -267,8 +267,40 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	return b.pr.Sprintf("%.*f", dec, f)
 }
 
+// Format the number exactly and the same way in every language, so that it can be
+// read back. At least the decimals of the symbol are used. If there is no exact decimal
+// number (eg a third), it is rounded to at least six decimals.
+func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	n, exact := amount.FloatPrec()
+	if !exact {
+		n = 6
+	}
+	if n > dec {
+		dec = n
+	}
+	return amount.FloatString(dec)
+}
+
+// Format the payee for a ledger file, so that it can be read back.
+func FormatLedgerPayee(payee string) string {
+	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") {
+		return "\"" + payee + "\""
+	}
+	if strings.HasPrefix(payee, "*") {
+		return "* " + payee
+	}
+	return payee
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
+	if symbol == "" {
+		return symbol
+	}
 	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
 		return symbol + " "
 	}
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..484b775 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -27,7 +27,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), app.FormatLedgerPayee(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -36,7 +36,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
@@ -44,8 +44,10 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 	b.Printf("\n; Prices\n")
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
+		unit := LedgerFormatCurrency(pair.Unit)
+		ccy := LedgerFormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), unit, b.FormatSymbol(ccy), b.FormatExact(pair.CCY, p.GetPrice()))
 		}
 	}
 
-- 
2.43.0


From f450f2054c265918801cd8e0877801ba2019843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 17/63] fix: currencies and prices are listed in the same order
 every time

---
 book/book.go                 |  7 +++++++
 cmd/currencies/currencies.go | 12 ++++++++++--
 cmd/utils/cli_config.go      |  3 +++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/book/book.go b/book/book.go
index 036f9ac..478ef1d 100644
--- a/book/book.go
+++ b/book/book.go
@@ -36,6 +36,13 @@ func (b *Book) GetPricePairs() []PricePair {
 		pairs = append(pairs, pair)
 	}
 
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
+
 	return pairs
 }
 
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..3968d52 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,15 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+
+		for _, ccy := range ccys {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index e134969..2a9982d 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -93,6 +94,8 @@ func (e *CLIConfig) String() string {
 		i++
 	}
 
+	sort.Strings(keyv)
+
 	return e.ConfigType + ":" + strings.Join(keyv, ",")
 }
 
-- 
2.43.0


From 272fc01867ceec4d47289865f7c8e0e2ede2c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 18/63] fix: Beancount output closes accounts only when all
 their currencies are zero, in a fixed order

---
 cmd/export/beancount.go  | 33 ++++++++++++++++++++++++++-------
 cmd/reports/beancount.go | 33 ++++++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..eaae87e 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -24,12 +25,11 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -38,12 +38,17 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 				stats = &accountInfo{
 					first: p.GetDate(),
 					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			ccy := FormatCurrency(p.GetCCY())
+			if stats.bals[ccy] == nil {
+				stats.bals[ccy] = &big.Rat{}
+			}
+			stats.bals[ccy].Add(stats.bals[ccy], p.GetAmount())
 		}
 	}
 
@@ -53,9 +58,23 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 	}
 
 	// Account open close
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+
+		// Close only if nothing is left in any currency
+		isZero := true
+		for _, bal := range stats.bals {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..345d9b8 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -22,12 +23,11 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -36,18 +36,37 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 				stats = &accountInfo{
 					first: p.GetDate(),
 					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
 			} else {
 				stats.last = p.GetDate()
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			ccy := FormatCurrency(p.GetCCY())
+			if stats.bals[ccy] == nil {
+				stats.bals[ccy] = &big.Rat{}
+			}
+			stats.bals[ccy].Add(stats.bals[ccy], p.GetAmount())
 		}
 	}
 
-	for acct, stats := range lstats {
+	accts := make([]string, 0, len(lstats))
+	for acct := range lstats {
+		accts = append(accts, acct)
+	}
+	sort.Strings(accts)
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+
+		// Close only if nothing is left in any currency
+		isZero := true
+		for _, bal := range stats.bals {
+			if bal.Sign() != 0 {
+				isZero = false
+			}
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
-- 
2.43.0


From fa6ec88c05e6e64f1b8518ea11b59536a7251f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 19/63] fix: Beancount output has exact amounts and quotes in
 payees escaped

---
 cmd/export/beancount.go  | 8 +++++---
 cmd/reports/beancount.go | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index eaae87e..499e9f3 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -14,6 +14,8 @@ func FormatCurrency(ccy string) string {
 	return ccy
 }
 
+var payeeEscape = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
 func FormatAccount(acct string) string {
 	acct = strings.Title(acct)
 	return acct
@@ -88,14 +90,14 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), payeeEscape.Replace(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
@@ -107,7 +109,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 345d9b8..7526f93 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -14,6 +14,8 @@ func FormatCurrency(ccy string) string {
 	return ccy
 }
 
+var payeeEscape = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
 func FormatAccount(acct string) string {
 	acct = strings.Title(acct)
 	return acct
@@ -87,14 +89,14 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), payeeEscape.Replace(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 8fc1b46e0443e9c3f095d02e9c0310c6fe72ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 20/63] fix: CSV output has exact amounts

---
 cmd/export/csv.go             | 4 +---
 cmd/register/show_register.go | 6 ++----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..0496af9 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,6 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -25,14 +24,13 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 	// Postings
 	for _, posts := range bk.Transactions() {
 		for _, p := range posts {
-        		f, _ := p.GetAmount().Float64()
 			csvwrite.Write([]string{
 				posts.GetDate().String(),
 				posts.GetPayee(),
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				b.FormatExact(p.GetCCY(), p.GetAmount()),
 				p.GetPostNote(),
 			})
 		}
diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 87a1cbe..b2b7230 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -122,16 +122,14 @@ func ShowCSV(b *app.BookPrinter, report book.RegistryReport) error {
 
 	// Print out content
 	for _, p := range report {
-		amt, _ := p.Amount.Float64()
-		bal, _ := p.Balance.Float64()
 		rows = append(rows, []string{
 			p.Date.String(),
 			p.Payee,
 			p.Account,
 			p.CounterAccount,
 			p.CCY,
-			fmt.Sprintf("%f", amt),
-			fmt.Sprintf("%f", bal),
+			b.FormatExact(p.CCY, p.Amount),
+			b.FormatExact(p.CCY, p.Balance),
 		})
 	}
 
-- 
2.43.0


From 051ca15b5ce05182ac260c33527ebc305d7900ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 21/63] fix: print amounts of more than 15 digits correctly

---
 cmd/app/print.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 2e5bc22..8920112 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -9,6 +9,7 @@ import (
 	"golang.org/x/text/message"
 	"golang.org/x/text/message/catalog"
 	"io"
+	"math"
 	"math/big"
 	"os"
 	"strings"
@@ -259,12 +260,33 @@ func (b *BookPrinter) PrintColumns(rows [][]ColumnValue, shrinkToTerm []bool) {
 // Format the number correctly based on the symbol in a locale-specific
 // way
 func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
-	f, _ := amount.Float64()
 	dec, ok := b.decs[symbol]
 	if !ok {
 		dec = 2
 	}
-	return b.pr.Sprintf("%.*f", dec, f)
+
+	// Float64 is only good for 15 digits. So use it only for the layout (a number with
+	// just as many digits) and fill in the digits of the exact amount.
+	exact := amount.FloatString(dec)
+	digits := strings.NewReplacer("-", "", ".", "").Replace(exact)
+	f := 1.5 * math.Pow10(len(digits)-dec-1)
+	if amount.Sign() < 0 {
+		f = -1 * f
+	}
+	layout := []rune(b.pr.Sprintf("%.*f", dec, f))
+	filled := 0
+	for i, r := range layout {
+		if r >= '0' && r <= '9' {
+			if filled < len(digits) {
+				layout[i] = rune(digits[filled])
+			}
+			filled++
+		}
+	}
+	if filled != len(digits) {
+		return exact
+	}
+	return string(layout)
 }
 
 // Format the number exactly and the same way in every language, so that it can be
-- 
2.43.0


From 4851940492c71aba5b5b69ef5bf529ddb4da5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 22/63] fix: imported and generated transactions can be loaded
 in every language

---
 cmd/app/print.go      | 10 ++++++++++
 cmd/reports/ledger.go | 25 +++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 8920112..0e0ffb1 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -289,6 +289,16 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	return string(layout)
 }
 
+// Format the number rounded to the decimals of the symbol and the same way in every
+// language, so that it can be read back.
+func (b *BookPrinter) FormatRounded(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	return amount.FloatString(dec)
+}
+
 // Format the number exactly and the same way in every language, so that it can be
 // read back. At least the decimals of the symbol are used. If there is no exact decimal
 // number (eg a third), it is rounded to at least six decimals.
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..d5057f2 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"math/big"
 )
 
 func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
@@ -12,7 +13,27 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		if tnote != "" {
 			tnote = "  ; " + tnote
 		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s %s%s\n", posts.GetDate(), app.FormatLedgerPayee(posts.GetPayee()), tnote)
+
+		// Round the amounts, unless that leaves a balanced transaction unbalanced
+		format := b.FormatRounded
+		sums := make(map[string]*big.Rat)
+		roundedSums := make(map[string]*big.Rat)
+		for _, p := range posts {
+			if sums[p.GetCCY()] == nil {
+				sums[p.GetCCY()] = &big.Rat{}
+				roundedSums[p.GetCCY()] = &big.Rat{}
+			}
+			rounded, _ := new(big.Rat).SetString(b.FormatRounded(p.GetCCY(), p.GetAmount()))
+			sums[p.GetCCY()].Add(sums[p.GetCCY()], p.GetAmount())
+			roundedSums[p.GetCCY()].Add(roundedSums[p.GetCCY()], rounded)
+		}
+		for ccy, sum := range sums {
+			if sum.Sign() == 0 && roundedSums[ccy].Sign() != 0 {
+				format = b.FormatExact
+			}
+		}
+
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
@@ -30,7 +51,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), format(p.GetCCY(), p.GetAmount()), pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 7731590c6e49aa35ab8e3c3a09531e9768831335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 23/63] fix: register converts to the base currency with the
 price in that direction

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From 421c4c178e8bbc714cee367cf319aeda21a86621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 24/63] fix: register shows only an account's own postings
 below its name

---
 cmd/register/register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 767e7b9..9c1e0a2 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -111,7 +111,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
-- 
2.43.0


From 2a4de49ac8c53d599bf599c027ecf07aa548df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 25/63] fix: an invalid regular expression is an error instead
 of a crash

---
 cmd/accounts/accounts.go |  5 +++++
 cmd/app/book_op.go       | 12 ++++++++++++
 cmd/register/register.go |  3 +++
 script/book_op.go        |  4 ++++
 4 files changed, 24 insertions(+)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..5c03d04 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -1,8 +1,10 @@
 package accounts
 
 import (
+	"fmt"
 	rapp "github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"regexp"
 )
 
 func Add(cmd *cobra.Command, app *rapp.App) {
@@ -28,6 +30,9 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 		if len(args) == 1 {
 			regex = args[0]
 		}
+		if _, err := regexp.Compile(regex); err != nil {
+			return fmt.Errorf("invalid regex: '%s': %w", regex, err)
+		}
 
 		// Create printer
 		bp := app.NewBookPrinter(b.GetCCYDecimals())
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..f6696b5 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -121,6 +121,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("search regex '%s', invalid: %w", args[1], err)
+		}
 		b.RegexCCY(args[1], args[2])
 		return nil
 	case "map=":
@@ -128,6 +131,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("search regex '%s', invalid: %w", args[1], err)
+		}
 		b.RegexAccounts(args[1], args[2], args[4])
 		return nil
 	case "move=":
@@ -135,6 +141,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("search regex '%s', invalid: %w", args[1], err)
+		}
 		factor, err := strconv.ParseFloat(args[3], 64)
 		if err != nil {
 			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
@@ -169,6 +178,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("depreciate operation '%s', invalid: must be format '%s'", op_act, deprec_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("search regex '%s', invalid: %w", args[1], err)
+		}
 		months, err := strconv.ParseInt(args[3], 10, 64)
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 9c1e0a2..4e17e18 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -109,6 +109,9 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
 	}
 
+	if _, err := regexp.Compile(arg); err != nil {
+		return fmt.Errorf("invalid regex: '%s': %w", arg, err)
+	}
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
 		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
diff --git a/script/book_op.go b/script/book_op.go
index 0773809..6cbc928 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"go.starlark.net/starlark"
+	"regexp"
 )
 
 var mapf = starlark.NewBuiltin("map",
@@ -23,6 +24,9 @@ var mapf = starlark.NewBuiltin("map",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
+		if _, err := regexp.Compile(from); err != nil {
+			return starlark.None, fmt.Errorf("invalid regex: '%s': %w", from, err)
+		}
 		bb.b.RegexAccounts(from, to, alt)
 		return val, nil
 	})
-- 
2.43.0


From 2afe2a89ba1d78baca4244584857005735aacc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 26/63] fix: a macro that refers to itself is an error instead
 of endless recursion

---
 cmd/app/book_op.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index f6696b5..c6c8560 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -94,13 +94,19 @@ func (app *App) BookOps(b *book.Book, ops ...string) error {
 	return nil
 }
 
-func (app *App) bookOp(b *book.Book, op string) error {
+func (app *App) bookOp(b *book.Book, op string, parents ...string) error {
 	var err error
 
 	m, ok := app.Macros[op]
 	if ok {
+		for _, parent := range parents {
+			if parent == op {
+				return fmt.Errorf("macro expansion '%s': macro refers to itself", op)
+			}
+		}
+		parents = append(parents, op)
 		for _, macro := range m {
-			err = app.bookOp(b, macro)
+			err = app.bookOp(b, macro, parents...)
 			if err != nil {
 				return fmt.Errorf("macro expansion '%s': %v", op, err)
 			}
-- 
2.43.0


From 482891ccf678fb4ea021d4a39f834958ed0f109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 27/63] fix: move takes exactly the share that was given

---
 book/book.go       | 9 ++++++++-
 cmd/app/book_op.go | 9 +++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/book/book.go b/book/book.go
index 478ef1d..6dddc68 100644
--- a/book/book.go
+++ b/book/book.go
@@ -184,9 +184,16 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 // replace_acct - account to transfer amount into
 // factor - portion of original posting to transform
 func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
+	var r big.Rat
+	r.SetFloat64(factor)
+	b.AdjustPostRat(search_acct, replace_acct, &r)
+}
+
+// Create Adjust Postings (see AdjustPost) with an exact factor
+func (b *Book) AdjustPostRat(search_acct string, replace_acct string, factor *big.Rat) {
 	re := regexp.MustCompile(search_acct)
 	var r, i big.Rat
-	r.SetFloat64(factor)
+	r.Set(factor)
 	i.Neg(&r)
 	newposts := b.post
 	for _, p := range b.post {
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index c6c8560..4a91956 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -3,6 +3,7 @@ package app
 import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
+	"math/big"
 	"regexp"
 	"strconv"
 	"strings"
@@ -150,11 +151,11 @@ func (app *App) bookOp(b *book.Book, op string, parents ...string) error {
 		if _, err := regexp.Compile(args[1]); err != nil {
 			return fmt.Errorf("search regex '%s', invalid: %w", args[1], err)
 		}
-		factor, err := strconv.ParseFloat(args[3], 64)
-		if err != nil {
-			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
+		factor, ok := new(big.Rat).SetString(args[3])
+		if !ok {
+			return fmt.Errorf("move factor '%s', invalid: must be decimal number", args[3])
 		}
-		b.AdjustPost(args[1], args[2], factor)
+		b.AdjustPostRat(args[1], args[2], factor)
 		return nil
 	case "asof=":
 		d := book.DateFromString(op_act)
-- 
2.43.0


From e4998374bddadfef8f1644d63be6bbdaee91df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 28/63] fix: dates that don't exist are recognised as invalid
 and 31121999 is read as a date

---
 book/date.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/book/date.go b/book/date.go
index aa54f19..c2c13d8 100644
--- a/book/date.go
+++ b/book/date.go
@@ -76,12 +76,16 @@ func (date Date) FloorQuarter(diff int) Date {
 	return Date((year * 10000) + ((month + 1) * 100) + 1)
 }
 
-var dateYYYYMMDD = regexp.MustCompile("^([0-9][0-9][0-9][0-9])[-/\\.]?([0-9]?[0-9])?[-/\\.]?([0-9]?[0-9])?$")
-var dateDDMMYYYY = regexp.MustCompile("^([0-9]?[0-9])[-/\\.]?([0-9]?[0-9])[-/\\.]?([0-9][0-9][0-9][0-9])$")
+var dateYYYYMMDD = regexp.MustCompile("^([0-9][0-9][0-9][0-9])(?:[-/\\.]?([0-9]?[0-9])(?:[-/\\.]?([0-9]?[0-9]))?)?$")
+var dateDDMMYYYY = regexp.MustCompile("^([0-9]?[0-9])[-/\\.]([0-9]?[0-9])[-/\\.]([0-9][0-9][0-9][0-9])$")
+var dateDDMMYYYYNoSep = regexp.MustCompile("^([0-9][0-9])([0-9][0-9])([0-9][0-9][0-9][0-9])$")
 var date_desc_re = regexp.MustCompile("^(this|last|next)[\\._ \t]+(month|year|quarter)$")
 
 func (date *Date) Set(value string) error {
 	*date = DateFromString(value)
+	if *date == Date(0) {
+		return fmt.Errorf("invalid date '%s'", value)
+	}
 	return nil
 }
 
@@ -89,27 +93,37 @@ func (date *Date) Type() string {
 	return "date"
 }
 
+// Returns 0 if it's not a valid date
 func DateFromString(date string) Date {
 	mat := dateYYYYMMDD.FindStringSubmatch(date)
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
-		if month == 0 {
+		if mat[2] == "" {
 			month = 1
 		}
 		day, _ := strconv.Atoi(mat[3])
-		if day == 0 {
+		if mat[3] == "" {
 			day = 1
 		}
-		return Date(year*10000 + month*100 + day)
+		d := Date(year*10000 + month*100 + day)
+		if d.IsValid() {
+			return d
+		}
 	}
 
 	mat = dateDDMMYYYY.FindStringSubmatch(date)
+	if mat == nil {
+		mat = dateDDMMYYYYNoSep.FindStringSubmatch(date)
+	}
 	if mat != nil {
 		day, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
 		year, _ := strconv.Atoi(mat[3])
-		return Date(year*10000 + month*100 + day)
+		d := Date(year*10000 + month*100 + day)
+		if d.IsValid() {
+			return d
+		}
 	}
 
 	mat = date_desc_re.FindStringSubmatch(date)
@@ -133,11 +147,6 @@ func DateFromString(date string) Date {
 		return d
 	}
 
-	i, err := strconv.Atoi(date)
-	if err == nil {
-		return Date(i)
-	}
-
 	return 0
 }
 
-- 
2.43.0


From 79bda89f6ecf34857effffc898b0c7f1e46e2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 29/63] fix: an invalid begin or asof date of the register is
 an error

---
 cmd/register/register.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 4e17e18..9850e71 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -70,6 +70,12 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 
 func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string) error {
 
+	for _, date := range []string{reg.BeginDate, reg.EndDate} {
+		if date != "" && book.DateFromString(date) == book.Date(0) {
+			return fmt.Errorf("date '%s', invalid", date)
+		}
+	}
+
 	// Load up saved flags
 	b, err := rapp.LoadBook()
 	if err != nil {
-- 
2.43.0


From 12c64b8c4008d700f1ddc91d0efe41d0632afd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 30/63] fix: depreciating over no months or endless months is
 an error

---
 cmd/app/book_op.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 4a91956..9e9e49d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -85,6 +85,9 @@ var map_op = regexp.MustCompile("^/([^/]+)/([^/]+)/(([^/]+)/)?$")
 var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 
+// More months than that would run beyond the last possible date
+const maxDepreciateMonths = 9999 * 12
+
 func (app *App) BookOps(b *book.Book, ops ...string) error {
 	for _, op := range ops {
 		if err := app.bookOp(b, op); err != nil {
@@ -192,6 +195,9 @@ func (app *App) bookOp(b *book.Book, op string, parents ...string) error {
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
+		if months < 1 || months > maxDepreciateMonths {
+			return fmt.Errorf("depreciate months '%s', invalid: must be 1 to %d", args[3], maxDepreciateMonths)
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
-- 
2.43.0


From 0b3741a9404e8c96c0a9180f0f94e6a29a6d6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 31/63] fix: reclassify uses the most common counter account,
 the same one every time

---
 book/book_reclassify.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..429a0fb 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -52,8 +52,8 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
-				k = max
+			if k > max || (k == max && cacct < macct) {
+				max = k
 				macct = cacct
 			}
 		}
@@ -76,11 +76,13 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		}
 
 		max_match := 0.0
+		max_payee := ""
 		max_cacct := ""
 		for p, c := range payee_mapping {
 			d := dist(trans.GetPayee(), p)
-			if d > max_match {
+			if d > max_match || (d == max_match && d > 0.0 && p < max_payee) {
 				max_match = d
+				max_payee = p
 				max_cacct = c
 			}
 		}
-- 
2.43.0


From 20bbc910b7700e40d5e936ecdbaffa6c4f9ee2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 32/63] fix: JSON has the note of each posting

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From e4ada173914c4d6aba23e126746d8cc9e3a46967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 33/63] fix: summarising leaves the book as it was

---
 book/book_accum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index ebb42df..3563514 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -170,7 +170,7 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 	// Only need some of compact functionality
 	b.compact()
 
-	posts := b.post
+	posts := append([]Posting(nil), b.post...)
 
 	if len(posts) == 0 {
 		return b.Transactions()
-- 
2.43.0


From 17f90e3f6869727e8a11d917d97441ad3f423e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 34/63] fix: summarise only below account components that are
 shared, and all of them

---
 book/book_accum.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 3563514..f8b26f1 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -16,14 +16,13 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 		if left[i] != right[i] {
 			break
 		}
-		if strings.HasPrefix(left[i:], divider) {
+		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
 			prefix = i
 		}
 	}
 
-	if (i < len(left) && strings.HasPrefix(left[i:], divider)) ||
-		(i < len(right) && strings.HasPrefix(right[i:], divider)) ||
-		(i == len(left) && i == len(right)) {
+	if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
+		(i == len(right) || strings.HasPrefix(right[i:], divider)) {
 		prefix = i
 	}
 
@@ -211,6 +210,25 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 		}
 	}
 
+	// An account isn't always next to its sub-accounts (eg "Bank", "Bank2", "Bank:Savings"),
+	// so look at them in the order of their components as well.
+	accts := make([]string, 0, len(posts))
+	seen := make(map[string]bool)
+	for _, p := range posts {
+		if !seen[p.GetAccount()] {
+			seen[p.GetAccount()] = true
+			accts = append(accts, p.GetAccount())
+		}
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		return strings.ReplaceAll(accts[i], divider, "\x00") < strings.ReplaceAll(accts[j], divider, "\x00")
+	})
+	for i := 1; i < len(accts); i++ {
+		if key := findMaxCommonPrefix(accts[i-1], accts[i], divider); key != "" {
+			accum[key] = true
+		}
+	}
+
 	transIdx := 0
 	i := 0
 	for {
-- 
2.43.0


From 8f29e106c8c1d83bb72dc289a065e7744a224e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 35/63] fix: summarised accounts are ordered by their exact
 value and stay below their parent

---
 book/book_accum.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index f8b26f1..44152c5 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -29,24 +29,38 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 	return left[0:prefix]
 }
 
-func getSortOrder(a *big.Rat) string {
-	f, _ := a.Float64()
-	g := int64(f * 1000_000)
-	g = 1_000_000_000*1_000_000 - g
-	return fmt.Sprintf("%015x", g)
+// Rank the accounts by descending value. Equal values have the same rank.
+func getSortRanks(val map[string]*big.Rat) map[string]int {
+	accts := make([]string, 0, len(val))
+	for acct := range val {
+		accts = append(accts, acct)
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		return val[accts[i]].Cmp(val[accts[j]]) > 0
+	})
+	ranks := make(map[string]int)
+	for i, acct := range accts {
+		ranks[acct] = i
+		if i > 0 && val[acct].Cmp(val[accts[i-1]]) == 0 {
+			ranks[acct] = ranks[accts[i-1]]
+		}
+	}
+	return ranks
 }
 
-func getSortOrderString(val map[string]*big.Rat, acct string, divider string) string {
+// Accounts with equal values are ordered by name, so that each of them stays together
+// with the accounts below it.
+func getSortOrderString(ranks map[string]int, acct string, divider string) string {
 	o := make([]string, 0, 5)
 	for i := 1; i <= len(acct); i++ {
 		if i != len(acct) && !strings.HasPrefix(acct[i:], divider) {
 			continue
 		}
-		if v, ok := val[acct[:i]]; ok {
-			o = append(o, getSortOrder(v))
+		if v, ok := ranks[acct[:i]]; ok {
+			o = append(o, fmt.Sprintf("%08x%s", v, acct[:i]))
 		}
 	}
-	return strings.Join(o, divider)
+	return strings.Join(o, "\x00")
 }
 
 func splitByStrings(prefixes map[string]bool, acct string, includeSelf bool, divider string) (int, string) {
@@ -257,10 +271,12 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 				acctval[k] = v
 			}
 
+			ranks := getSortRanks(acctval)
+
 			// Assign level to normal postings
 			for j := transIdx; j < i; j++ {
 				eposts[j].acctlevel, eposts[j].acctterm = splitByStrings(accum, eposts[j].acct, true, divider)
-				eposts[j].acctsort = getSortOrderString(acctval, eposts[j].acct, divider)
+				eposts[j].acctsort = getSortOrderString(ranks, eposts[j].acct, divider)
 			}
 
 			// Create new postings
@@ -268,7 +284,7 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 
 				// Find the level
 				newlevels, newterm := splitByStrings(accum, k, false, divider)
-				newsort := getSortOrderString(acctval, k, divider)
+				newsort := getSortOrderString(ranks, k, divider)
 
 				// Add new posting
 				sposts = append(sposts, Posting{
-- 
2.43.0


From dee591ce4f0610beacf5cfc59006744b09b021b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 36/63] fix: changes to a duplicate of a book don't affect the
 original

---
 book/book.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/book/book.go b/book/book.go
index 6dddc68..aed1330 100644
--- a/book/book.go
+++ b/book/book.go
@@ -53,9 +53,23 @@ func (b *Book) GetPriceList(unit string, ccy string) PriceList {
 func (b *Book) Duplicate() *Book {
 	newp := make([]Posting, len(b.post), len(b.post))
 	copy(newp, b.post)
-	newt := make([]Transaction, len(b.trans), len(b.trans))
-	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	for i := range newp {
+		newp[i].val = big.NewRat(0, 1).Set(newp[i].val)
+		newp[i].bal = big.NewRat(0, 1).Set(newp[i].bal)
+	}
+	newprices := newPriceBookBuilder()
+	for pair, pl := range b.prices.data {
+		for _, p := range pl {
+			newprices.addPrice(p.date, pair.Unit, pair.CCY, big.NewRat(0, 1).Set(p.val))
+		}
+	}
+	newccy := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		newccy[ccy] = dec
+	}
+	newb := &Book{newp, nil, newprices.build(), newccy}
+	newb.compact()
+	return newb
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
-- 
2.43.0


From 487b05895f384712959b8966a4685247345a109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 37/63] fix: an account has a balance if any of its currencies
 has one

---
 book/book.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/book/book.go b/book/book.go
index aed1330..290c37c 100644
--- a/book/book.go
+++ b/book/book.go
@@ -223,20 +223,33 @@ func (b *Book) AdjustPostRat(search_acct string, replace_acct string, factor *bi
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
+// in any currency
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
+	lbal := make(map[string]map[string]*big.Rat)
 	accts := make([]string, 0, 10)
 	for _, p := range b.post {
 		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+			bals, ok := lbal[p.GetAccount()]
+			if !ok {
+				bals = make(map[string]*big.Rat)
+				lbal[p.GetAccount()] = bals
+			}
+			if bals[p.GetCCY()] == nil {
+				bals[p.GetCCY()] = big.NewRat(0, 1)
+			}
+			bals[p.GetCCY()].Add(bals[p.GetCCY()], p.GetAmount())
 		}
 	}
 
-	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
+	for acct, bals := range lbal {
+		hasBalance := false
+		for _, bal := range bals {
+			if bal.Sign() != 0 {
+				hasBalance = true
+			}
+		}
+		if !onlyWithBalance || hasBalance {
 			accts = append(accts, acct)
 		}
 	}
-- 
2.43.0


From 1e3b733736f61b3f53000d2c3c3bce8464cca6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 38/63] fix: renaming currencies keeps all prices, their order
 and the decimals

---
 book/book.go         |  1 +
 book/book_compact.go |  1 +
 book/book_utils.go   | 22 +++++++++++++++++-----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/book/book.go b/book/book.go
index 290c37c..d378fc2 100644
--- a/book/book.go
+++ b/book/book.go
@@ -308,6 +308,7 @@ func (b *Book) MapAmount(mapper func(date Date, ccy string) (*big.Rat, string))
 		p[i].ccy = ccy
 		p[i].val.Mul(p[i].val, v)
 	}
+	b.compact()
 }
 
 func (b *Book) MapAccount(mapper func(acct string) string) {
diff --git a/book/book_compact.go b/book/book_compact.go
index 87fc904..0d26661 100644
--- a/book/book_compact.go
+++ b/book/book_compact.go
@@ -9,6 +9,7 @@ func (b *Book) compact() {
 
 	// Skip empty
 	if len(b.post) == 0 {
+		b.trans = b.trans[:0]
 		return
 	}
 
diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..e2d65cd 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -39,8 +39,21 @@ func (b *Book) RegexCCY(search string, replace string) {
 		}
 	})
 
+	// Map the decimals
+	newccy := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		if re.MatchString(ccy) {
+			ccy = re.ReplaceAllString(ccy, replace)
+		}
+		if dec >= newccy[ccy] {
+			newccy[ccy] = dec
+		}
+	}
+	b.ccy = newccy
+
 	// Map the prices
-	for ccypair, pl := range b.prices.data {
+	newprices := newPriceBookBuilder()
+	for _, ccypair := range b.GetPricePairs() {
 		newpair := ccypair
 		if re.MatchString(ccypair.Unit) {
 			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
@@ -48,12 +61,11 @@ func (b *Book) RegexCCY(search string, replace string) {
 		if re.MatchString(ccypair.CCY) {
 			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
 		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
+		for _, p := range b.GetPriceList(ccypair.Unit, ccypair.CCY) {
+			newprices.addPrice(p.date, newpair.Unit, newpair.CCY, p.val)
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
 	}
+	b.prices = newprices.build()
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From e8d3b83fd7f3b9f9ef239bc7a684bf27c5de8cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 39/63] fix: a price of zero in the opposite direction is no
 price instead of a crash

---
 book/price.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/book/price.go b/book/price.go
index f853d42..d3523f5 100644
--- a/book/price.go
+++ b/book/price.go
@@ -190,6 +190,9 @@ func (p *priceBook) getPrice(date Date, unit string, ccy string) (*big.Rat, Pric
 	v, ok = p.data[PricePair{ccy, unit}]
 	if ok {
 		r, pt := v.GetPrice(date)
+		if r.Sign() == 0 {
+			return big.NewRat(1, 1), PriceTypeNone
+		}
 		return big.NewRat(0, 1).Inv(r), pt
 	}
 	return big.NewRat(1, 1), PriceTypeNone
-- 
2.43.0


From e272b2c2b7ed7778503a9fa50958db66775f3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 40/63] fix: the fraction of the year includes the day of the
 month

---
 book/date.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index c2c13d8..d6e5c43 100644
--- a/book/date.go
+++ b/book/date.go
@@ -267,7 +267,6 @@ func (date Date) AsYears() float64 {
 	isLeapYear := YearIsLeapYear(year)
 
 	// Add in month-to-date (without leaps)
-	day = 0
 	for i := 0; i < month; i++ {
 		day += monthDays[i]
 
-- 
2.43.0


From cfa9e5a4f43c4d22bd41406a267b205a663f7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 41/63] fix: rate of return converges for flows of any size and
 for negative rates

---
 book/irr.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/book/irr.go b/book/irr.go
index c2559cd..daca9d7 100644
--- a/book/irr.go
+++ b/book/irr.go
@@ -15,18 +15,21 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 	}
 
 	guess := 0.10
-	epsilon := 0.0001
+	epsilon := 1e-9
 	limit := 10000
 
 	for i := 0; i < limit; i++ {
 
-		// Calculate residual
+		// Calculate residual and the size of the flows it is relative to
 		residual := cashflow[0]
+		scale := math.Abs(cashflow[0])
 		for i := 1; i < len(cashflow); i++ {
-			residual += cashflow[i] / math.Pow(1+guess, years[i])
+			value := cashflow[i] / math.Pow(1+guess, years[i])
+			residual += value
+			scale += math.Abs(value)
 		}
 
-		if math.Abs(residual) < epsilon {
+		if math.Abs(residual) <= epsilon*scale {
 			break
 		}
 
@@ -37,13 +40,15 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 
 		newRate := guess - residual/residualAdjustment
 
+		// A step can overshoot: the rate stays above -1
+		if newRate <= -1 {
+			newRate = (guess - 1) / 2
+		}
+
 		if math.Abs(newRate-guess) < epsilon {
 			break
 		}
 
-		if newRate < -1 {
-			newRate = -0.999999999
-		}
 		guess = newRate
 	}
 
-- 
2.43.0


From 363572d953de108f2a751398aaa0686ed5074ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 42/63] fix: a save that cannot complete is an error and keeps
 the old file if the data cannot be encoded

---
 cmd/utils/json.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..13155a6 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -107,8 +107,14 @@ func LoadFromFile(file string, data interface{}) error {
 
 func SaveToFile(file string, data interface{}) (oerr error) {
 
+	// Marshal the JSON bytes
+	b, err := json.MarshalIndent(data, "", "  ")
+	if err != nil {
+		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+	}
+
 	// Ensure directory exists
-	err := os.MkdirAll(filepath.Dir(file), os.ModePerm)
+	err = os.MkdirAll(filepath.Dir(file), os.ModePerm)
 	if err != nil {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
@@ -122,7 +128,7 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 	// Defered closing
 	defer func() {
 		if err := fh.Close(); err != nil {
-			if oerr != nil {
+			if oerr == nil {
 				oerr = fmt.Errorf("failed closing %s: %v", file, err)
 			}
 		}
@@ -134,7 +140,7 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		gwriter := gzip.NewWriter(fh)
 		defer func() {
 			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
+				if oerr == nil {
 					oerr = fmt.Errorf("failed closing %s: %v", file, err)
 				}
 			}
@@ -142,12 +148,6 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		w = gwriter
 	}
 
-	// Marshal the JSON bytes
-	b, err := json.MarshalIndent(data, "", "  ")
-	if err != nil {
-		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
-	}
-
 	// Write the file
 	_, err = w.Write(b)
 	if err != nil {
-- 
2.43.0


From 678b608d94c6e56782e1654555543c38e4476017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 43/63] fix: script transactions can be read back and missing
 amounts, denominators or currencies are errors

---
 script/starlark.go | 77 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..cdbe520 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -9,10 +9,43 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
+	"unicode/utf8"
 )
 
 func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
+}
+
+// Clean the text so that it is unchanged after being written to a ledger
+// file and read back: it is on one line without surrounding space.
+func cleanText(text string) string {
+	text = strings.ToValidUTF8(text, string(utf8.RuneError))
+	return strings.TrimSpace(strings.ReplaceAll(text, "\n", " "))
+}
+
+// Clean the payee. A payee that needs quotes can't have quotes inside.
+func cleanPayee(payee string) string {
+	payee = cleanText(payee)
+	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") {
+		payee = strings.ReplaceAll(payee, "\"", "'")
+	}
+	return payee
+}
+
+// Get amount divided by the denominator
+func getAmount(amount starlark.Value, denom int) (*big.Rat, error) {
+	amt, err := GetBigRat(amount)
+	if err != nil {
+		return nil, err
+	}
+	if amt == nil {
+		return nil, fmt.Errorf("missing amount")
+	}
+	if denom == 0 {
+		return nil, fmt.Errorf("invalid denominator %d", denom)
+	}
+	return amt.Mul(amt, big.NewRat(1, int64(denom))), nil
 }
 
 var userError = errors.New("user code")
@@ -66,41 +99,43 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, fmt.Errorf("invalid date %s", date)
 		}
 
-		// Convert the amount
-		amt, err := GetBigRat(amount)
+		// Convert the amount, divided by denominator if set
+		amt, err := getAmount(amount, denom)
 		if err != nil {
 			return nil, err
 		}
+		if ccy == "" {
+			return nil, fmt.Errorf("missing currency")
+		}
 
-		// Divide by denominator if set
-		amt.Mul(amt, big.NewRat(1, int64(denom)))
+		// Convert the second amount, both amount and account are needed
+		var amt2 *big.Rat
+		if amount2 != starlark.None || account2 != "" {
+			if account2 == "" {
+				return nil, fmt.Errorf("missing account for the second amount")
+			}
+			amt2, err = getAmount(amount2, denom2)
+			if err != nil {
+				return nil, fmt.Errorf("second amount: %w", err)
+			}
+			if ccy2 == "" {
+				return nil, fmt.Errorf("missing currency for the second amount")
+			}
+		}
 
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
 		// Make the transaction
-		bbuilder.NewTransaction(ndate, string(desc), note)
-		bbuilder.AddPosting(account, ccy, amt, lnote)
+		bbuilder.NewTransaction(ndate, cleanPayee(desc), cleanText(note))
+		bbuilder.AddPosting(account, ccy, amt, cleanText(lnote))
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
 		// Nothing else to do
-		if amount2 == starlark.None && account2 == "" {
+		if amt2 == nil {
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
-		}
-
-		// Convert the amount2
-		amt2, err := GetBigRat(amount2)
-		if err != nil {
-			return nil, err
-		}
-
-		// Divide by denominator if set
-		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))
-
 		// Set the negative of the amount
 		neg2 := (&big.Rat{}).Neg(amt2)
 
-- 
2.43.0


From a6daf619e0174e1ded37bb9323f2e96baa046c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 44/63] fix: amounts from scripts are the decimal number and
 infinite ones are errors

---
 script/convert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 39f569d..a5306a4 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -7,6 +7,7 @@ import (
 	"go.starlark.net/starlark"
 	"io"
 	"math/big"
+	"strconv"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -128,7 +129,11 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		// The decimal number that is meant, not the nearest binary fraction
+		f := float64(v)
+		if _, ok := amt.SetString(strconv.FormatFloat(f, 'g', -1, 64)); !ok {
+			return nil, fmt.Errorf("invalid amount '%v'", f)
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
-- 
2.43.0


From 1bc2227ed3833941aa257f143d9eccaaf050b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 45/63] fix: import of JSON with trailing data is an error and
 tab-separated CSV keeps empty fields

---
 script/convert.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index a5306a4..61c8739 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"math/big"
 	"strconv"
+	"unicode"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -58,10 +59,14 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 // This is a Starlark Reader
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
-	err := json.NewDecoder(r).Decode(&p)
+	dec := json.NewDecoder(r)
+	err := dec.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, fmt.Errorf("json parsing: unexpected data after the end")
+	}
 
 	s, err := jsonToStarlark(p)
 	if err != nil {
@@ -79,7 +84,7 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 		// CSV
 		csvr := csv.NewReader(r)
 		csvr.Comma = []rune(delim)[0]
-		csvr.TrimLeadingSpace = true
+		csvr.TrimLeadingSpace = !unicode.IsSpace(csvr.Comma)
 		csvr.ReuseRecord = true
 
 		var hdr []string = nil
-- 
2.43.0


From 90f14a7e35b051d08d4168c72c0a99698f6a6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 46/63] fix: HTML report closes its indent boxes and escapes
 texts

---
 cmd/reports/html.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..b691002 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
+	"html"
 	"math/big"
 )
 
@@ -58,7 +59,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 		b.Printf("  <div class=\"date\">%s</div>\n", posts.GetDate())
 		payee := posts.GetPayee()
 		if payee != "" {
-			b.Printf("  <div class=\"payee\">%s</div>\n", payee)
+			b.Printf("  <div class=\"payee\">%s</div>\n", html.EscapeString(payee))
 		}
 		b.Printf("</div>\n")
 
@@ -92,12 +93,15 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			thisIndent := indentedString(thisLevel)
 			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
-			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, v.GetAccountTerm())
-			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, b.FormatSymbol(v.GetCCY()), b.FormatNumber(v.GetCCY(), amt))
+			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
+			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
 
 			lastLevel = thisLevel
 		}
+		for i := lastLevel - 1; i >= 0; i-- {
+			b.Printf("%s  </div>\n", indentedString(i))
+		}
 		b.Printf("</div>\n")
 
 		// End of report
-- 
2.43.0


From 2219b13bb6f875a7ca06ea515a1d68e36e1d5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 47/63] fix: generate removes duplicates of the whole book,
 whatever the script restricts it to

---
 cmd/generate/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/generate/generate.go b/cmd/generate/generate.go
index 411ef74..9b500e6 100644
--- a/cmd/generate/generate.go
+++ b/cmd/generate/generate.go
@@ -21,8 +21,8 @@ func (gen *Generate) run(app *app.App, rcmd *cobra.Command, args []string) error
 		return fmt.Errorf("error loading book: %s", err)
 	}
 
-	// Generate the records from the main book
-	b, err := gen.generate(main, gen.Code)
+	// Generate the records from a copy of the main book
+	b, err := gen.generate(main.Duplicate(), gen.Code)
 	if err != nil {
 		return fmt.Errorf("error processing data: %w", err)
 	}
-- 
2.43.0


From 310b73ae5e01bdcfe5dfdaee0eaeaaaf8e3f0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 48/63] fix: a posting without amount outside of any
 transaction is an error as well

---
 loader/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 013a21a..2328250 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -197,7 +197,8 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	if err := parseFileLocal(loader, filename, nil, nil); err != nil {
+	started := false
+	if err := parseFileLocal(loader, filename, nil, nil, &started); err != nil {
 		return err
 	}
 
@@ -211,7 +212,7 @@ func ParseFile(loader TransactionLoader, filename string) (reterr error) {
 	return nil
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []string, started *bool) (reterr error) {
 	reterr = nil
 
 	// A file can't include itself, directly or through others
@@ -273,6 +274,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 			if rr.ch >= '0' && rr.ch <= '9' {
 				date, payee, note := rr.parseTransaction()
 				loader.NewTransaction(book.Date(date), payee, note)
+				*started = true
 				continue
 			}
 
@@ -284,7 +286,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
+				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents, started)
 				if err != nil {
 					return err
 				}
@@ -314,6 +316,9 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 		}
 
 		// indented means posting!
+		if !*started {
+			rr.stop("posting is outside of any transaction")
+		}
 		rr.parsePosting(loader, nmap)
 	}
 
-- 
2.43.0


From a61af3f70b1632d13eb8c973d7d11d54bad8e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 49/63] fix: register without a configured type prints text
 instead of a header and an error

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index b2b7230..046edbe 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -34,7 +34,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 		report = ndata
 	}
 
-	if format == "Text" {
+	if format == "Text" || format == "" {
 		return ShowText(b, report, withAcct, withBal)
 	} else if format == "JSON" {
 		return b.PrintJSON(report, true)
-- 
2.43.0


From 204f33bf2c40c3c0ab78c3ca662c38541edcec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 50/63] fix: tables keep the spaces that group digits in French

---
 cmd/app/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0e0ffb1..b7911b2 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -428,7 +428,7 @@ func Length(s string) int {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
@@ -468,7 +468,7 @@ func PadString(s string, max int, justify_left bool) string {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
-- 
2.43.0


From f176533ae3daeafb1dcbb21cfe9aadc0aec4bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 51/63] fix: text report of an account renamed to nothing
 doesn't crash

---
 cmd/reports/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index b730172..9343305 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -33,7 +33,16 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 	rows = append(rows, header)
 
 	// First column and rows initialize
-	idx := make(map[[3]string]int)
+	type rowKey struct {
+		acct  string
+		term  string
+		level int
+		ccy   string
+	}
+	getKey := func(v book.Posting) rowKey {
+		return rowKey{v.GetAccount(), v.GetAccountTerm(), v.GetAccountLevel(), v.GetCCY()}
+	}
+	idx := make(map[rowKey]int)
 	for i, v := range postingTrans {
 
 		// Get account name
@@ -56,7 +65,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		rows[pidx][0] = app.ColumnString(t)
 
 		// Record the index
-		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
+		idx[getKey(v)] = pidx
 	}
 
 	// Now fill in the data
@@ -65,7 +74,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		for _, v := range trans[i] {
 
 			// Find keys for posting
-			pidx, ok := idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]
+			pidx, ok := idx[getKey(v)]
 			if !ok {
 				return fmt.Errorf("account %s (term %s) currency %s not on all transactions; must summarise!",
 					v.GetAccount(),
@@ -80,7 +89,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Every account needs an amount in every transaction
 	for _, v := range postingTrans {
-		for i, col := range rows[idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]] {
+		for i, col := range rows[idx[getKey(v)]] {
 			if col == nil {
 				return fmt.Errorf("account %s (term %s) currency %s not on transaction %s; must summarise!",
 					v.GetAccount(),
-- 
2.43.0


From f84150b9cb784324b8152f82589436ca2526c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 52/63] fix: recognise the language of LANG values with a
 codeset or modifier

---
 cmd/app/app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..15e08d9 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -51,6 +51,10 @@ var DefaultApp App = App{
 func init() {
 	l, ok := os.LookupEnv("LANG")
 	if ok {
+		// Leave out the codeset and modifier (eg de_DE.UTF-8 or nl_NL@euro)
+		if i := strings.IndexAny(l, ".@"); i >= 0 {
+			l = l[:i]
+		}
 		DefaultApp.Lang = l
 	}
 }
-- 
2.43.0


From dccd97c8f977fdbdbab0cb39e15294e23599820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 53/63] fix: refuse configuration that has no table where one
 is needed

---
 cmd/config.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cmd/config.go b/cmd/config.go
index e00eca9..5fe7ecb 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -53,6 +53,13 @@ func load(name string, app *Config) error {
 			return fmt.Errorf("extra config in file %s: %s", file, k.String())
 		}
 
+		// The decoder leaves out anything else where a table of names is expected
+		for _, k := range md.Keys() {
+			if isNameTable(k) && md.Type(k...) != "Hash" {
+				return fmt.Errorf("invalid config in file %s: %s must be a table", file, k.String())
+			}
+		}
+
 		return nil
 	}
 
@@ -80,6 +87,18 @@ func load(name string, app *Config) error {
 	return nil
 }
 
+// Is the key one that holds a table of names (instead of fixed settings)
+func isNameTable(key toml.Key) bool {
+	top := strings.ToLower(key[0])
+	switch len(key) {
+	case 1:
+		return top == "macros" || top == "importdefs" || top == "generate"
+	case 3:
+		return top == "importdefs" && strings.ToLower(key[2]) == "params"
+	}
+	return false
+}
+
 const config_help = `Configuration File
 
 The configuration file mirrors largely mirrors parameters available
-- 
2.43.0


From fed27b385bf17e32aaa0645aea16e09ad2723743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 54/63] fix: bank replies that are null, hold null entries or
 have trailing data crash the sync or are taken for complete

---
 cmd/download/monzo.go    |  6 ++++++
 cmd/download/net.go      | 23 +++++++++++++++--------
 cmd/download/starling.go |  6 ++++++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..37e060c 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -86,6 +86,9 @@ func (m *MonzoClient) Sync() error {
 		m.data.Accounts = make(map[string]*MonzoAccount)
 	}
 	for _, v := range accts.Accounts {
+		if v == nil {
+			return fmt.Errorf("failed getting accounts: empty account in reply")
+		}
 		m.data.Accounts[v.ID] = v
 	}
 
@@ -296,6 +299,9 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 		// Map new transactions in
 		var created time.Time
 		for _, t := range trans.Trans {
+			if t == nil {
+				return fmt.Errorf("empty transaction in reply")
+			}
 			m.data.Transactions[t.ID] = t
 			thisTime, err := time.Parse(time.RFC3339, t.Created)
 			if err != nil {
diff --git a/cmd/download/net.go b/cmd/download/net.go
index b2149d0..9d6561d 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"net/url"
@@ -52,11 +53,23 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 		return fmt.Errorf("post url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))
 	}
 
+	return decodeReply(bodyBytes, url, data)
+}
+
+// decodeReply decodes a reply, which must be one complete JSON value other than null.
+func decodeReply(bodyBytes []byte, url string, data interface{}) error {
+	if string(bytes.TrimSpace(bodyBytes)) == "null" {
+		return fmt.Errorf("decoding '%v' from url %v: no data", string(bodyBytes), url)
+	}
+
 	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
 	decoder.DisallowUnknownFields()
-	if err = decoder.Decode(data); err != nil {
+	if err := decoder.Decode(data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return fmt.Errorf("decoding '%v' from url %v: unexpected data after the reply", string(bodyBytes), url)
+	}
 
 	return nil
 }
@@ -83,13 +96,7 @@ func fetchFromURL(client *http.Client, url string, data interface{}) error {
 		return fmt.Errorf("url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))
 	}
 
-	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
-	decoder.DisallowUnknownFields()
-	if err = decoder.Decode(data); err != nil {
-		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
-	}
-
-	return nil
+	return decodeReply(bodyBytes, url, data)
 }
 
 func CaptureCode(port int) (string, string, error) {
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 6b3ee1c..9beb696 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -139,6 +139,9 @@ func (m *StarlingClient) syncFeed(acct *StarlingAccountData, name string, catego
 	updatedItems := 0
 	newItems := 0
 	for _, item := range items.FeedItems {
+		if item == nil {
+			return fmt.Errorf("failed getting feeditems: empty item in reply")
+		}
 		curr, ok := feed[item.FeedItemUid]
 		if !ok {
 			newItems++
@@ -170,6 +173,9 @@ func (m *StarlingClient) Sync() error {
 		m.data.Accounts = make(map[string]*StarlingAccountData)
 	}
 	for _, v := range accts.Accounts {
+		if v == nil {
+			return fmt.Errorf("failed getting accounts: empty account in reply")
+		}
 		_, ok := m.data.Accounts[v.AccountUid]
 		if !ok {
 			m.data.Accounts[v.AccountUid] = &StarlingAccountData{}
-- 
2.43.0


From b1785963f41f94f11b27fa5f4ca53597ed939bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 55/63] fix: a Monzo sync never ends when a full page of
 transactions lies within a minute

---
 cmd/download/monzo.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 37e060c..7552618 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -274,6 +274,7 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 	}
 
 	var since = ""
+	seen := make(map[string]bool)
 	for {
 		fmt.Printf("Downloading transactions for account %s... ", accountID)
 
@@ -298,6 +299,7 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Map new transactions in
 		var created time.Time
+		newest, fresh := "", false
 		for _, t := range trans.Trans {
 			if t == nil {
 				return fmt.Errorf("empty transaction in reply")
@@ -307,9 +309,12 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 			if err != nil {
 				return fmt.Errorf("failed parsing timestamp '%s': %w", t.Created, err)
 			}
-			if thisTime.After(created) {
+			if !thisTime.Before(created) {
 				created = thisTime
+				newest = t.ID
 			}
+			fresh = fresh || !seen[t.ID]
+			seen[t.ID] = true
 		}
 
 		// If we didn't retrieve the full limit, we're done
@@ -319,8 +324,17 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Use the the time of a minute before the most recent transaction --
 		// Bug in Monzo API, unfortunately.
-		since = created.Add(-1 * time.Second * 60).Format(time.RFC3339)
+		next := created.Add(-1 * time.Second * 60).Format(time.RFC3339)
 
+		// A full page within that minute would come back for ever, so continue
+		// after its newest transaction.
+		if !fresh || next == since {
+			next = newest
+		}
+		if next == since {
+			return fmt.Errorf("no transactions after %s", since)
+		}
+		since = next
 	}
 
 	return nil
-- 
2.43.0


From f678ceb43043af9d70d9cbc43a16fee01d0b9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 56/63] fix: unknown or repeated parameters of an import format
 are an error

---
 cmd/importer/import_op.go |  7 +++++++
 cmd/utils/cli_config.go   | 28 ++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/cmd/importer/import_op.go b/cmd/importer/import_op.go
index 6fa7ded..4677de8 100644
--- a/cmd/importer/import_op.go
+++ b/cmd/importer/import_op.go
@@ -84,6 +84,9 @@ func NewBookImporterByConfig(cfg *utils.CLIConfig) (script.StarlarkReader, error
 	} else if cfg.ConfigType == "csv" {
 		return NewCSVBookImporter(cfg)
 	} else if cfg.ConfigType == "json" {
+		if err := cfg.CheckParams(); err != nil {
+			return nil, err
+		}
 		return script.ReadJSON, nil
 	} else {
 		return nil, fmt.Errorf("invalid import type: %s", cfg.ConfigType)
@@ -91,6 +94,10 @@ func NewBookImporterByConfig(cfg *utils.CLIConfig) (script.StarlarkReader, error
 }
 
 func NewCSVBookImporter(cfg *utils.CLIConfig) (script.StarlarkReader, error) {
+	if err := cfg.CheckParams("header", "delim"); err != nil {
+		return nil, err
+	}
+
 	delim := cfg.GetStringDefault("delim", ",")
 	if len([]rune(delim)) != 1 {
 		return nil, fmt.Errorf("invalid delimiter '%s': length not one character", delim)
diff --git a/cmd/utils/cli_config.go b/cmd/utils/cli_config.go
index 2a9982d..c61ddfe 100644
--- a/cmd/utils/cli_config.go
+++ b/cmd/utils/cli_config.go
@@ -47,6 +47,25 @@ func (cfg *CLIConfig) GetStringDefault(key string, dftl string) string {
 	return v
 }
 
+// Check that there are no other parameters than these
+func (cfg *CLIConfig) CheckParams(keys ...string) error {
+	invalid := make([]string, 0)
+	for param := range cfg.Params {
+		found := false
+		for _, key := range keys {
+			found = found || key == param
+		}
+		if !found {
+			invalid = append(invalid, param)
+		}
+	}
+	if len(invalid) > 0 {
+		sort.Strings(invalid)
+		return fmt.Errorf("invalid parameters for '%s': %s", cfg.ConfigType, strings.Join(invalid, ", "))
+	}
+	return nil
+}
+
 func (cfg *CLIConfig) Set(config string) error {
 	parts := strings.SplitN(config, ":", 2)
 
@@ -62,16 +81,17 @@ func (cfg *CLIConfig) Set(config string) error {
 	for _, arg := range strings.Split(parts[1], ",") {
 
 		argpair := strings.SplitN(arg, "=", 2)
-		if len(argpair) != 2 {
-			cfg.Params[argpair[0]] = "true"
-			continue
-		}
 
 		_, ok := cfg.Params[argpair[0]]
 		if ok {
 			return fmt.Errorf("invalid config '%s': arg '%s' set more than once", config, argpair[0])
 		}
 
+		if len(argpair) != 2 {
+			cfg.Params[argpair[0]] = "true"
+			continue
+		}
+
 		cfg.Params[argpair[0]] = argpair[1]
 	}
 
-- 
2.43.0


From cbc3080b414d3a4f33bff97d6b3a3536db18773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 57/63] fix: register with the lowest possible count doesn't
 crash

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 046edbe..92cc404 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -21,7 +21,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	}
 
 	// Restrict count counting from end
-	if count < 0 && len(report) > (-1*count) {
+	if count < 0 && len(report)+count > 0 {
 		report = (report)[len(report)+count : len(report)]
 	}
 
-- 
2.43.0


From 315c0f19d8fc7b91bb18828c6cae8114e12a415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 58/63] fix: rate of return doesn't stop next to -100%

---
 book/irr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/book/irr.go b/book/irr.go
index daca9d7..f1e32b9 100644
--- a/book/irr.go
+++ b/book/irr.go
@@ -40,9 +40,9 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 
 		newRate := guess - residual/residualAdjustment
 
-		// A step can overshoot: the rate stays above -1
-		if newRate <= -1 {
-			newRate = (guess - 1) / 2
+		// A step can overshoot: the rate goes at most half the way to -1
+		if lowest := (guess - 1) / 2; newRate < lowest {
+			newRate = lowest
 		}
 
 		if math.Abs(newRate-guess) < epsilon {
-- 
2.43.0


From bf497a022f70700b88b2f4e08b6c83f53dfc499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 59/63] fix: printed transactions balance even if amounts have
 no exact decimal number

---
 cmd/app/print.go         | 27 +++++++++++++++++++++++++++
 cmd/export/beancount.go  |  5 +++--
 cmd/export/ledger.go     |  5 +++--
 cmd/reports/beancount.go |  5 +++--
 cmd/reports/ledger.go    | 13 +++++++------
 5 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index b7911b2..9b98a37 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -4,6 +4,7 @@ import (
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
+	"github.com/mescanne/goledger/book"
 	"golang.org/x/term"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
@@ -317,6 +318,32 @@ func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
 	return amount.FloatString(dec)
 }
 
+// Format the amounts of a transaction exactly. If some have no exact decimal number, the
+// last of them takes up the rounding, so that the transaction is still balanced.
+func (b *BookPrinter) FormatExactAmounts(posts book.Transaction) []string {
+	amounts := make([]string, len(posts))
+	excess := make(map[string]*big.Rat)
+	last := make(map[string]int)
+	for i, p := range posts {
+		amounts[i] = b.FormatExact(p.GetCCY(), p.GetAmount())
+		printed, _ := new(big.Rat).SetString(amounts[i])
+		diff := printed.Sub(printed, p.GetAmount())
+		if diff.Sign() == 0 {
+			continue
+		}
+		if excess[p.GetCCY()] == nil {
+			excess[p.GetCCY()] = &big.Rat{}
+		}
+		excess[p.GetCCY()].Add(excess[p.GetCCY()], diff)
+		last[p.GetCCY()] = i
+	}
+	for ccy, i := range last {
+		printed, _ := new(big.Rat).SetString(amounts[i])
+		amounts[i] = b.FormatExact(ccy, printed.Sub(printed, excess[ccy]))
+	}
+	return amounts
+}
+
 // Format the payee for a ledger file, so that it can be read back.
 func FormatLedgerPayee(payee string) string {
 	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "\"") {
diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index 499e9f3..7a6ace2 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -91,13 +91,14 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
 		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), payeeEscape.Replace(posts.GetPayee()), tnote)
-		for _, p := range posts {
+		amounts := b.FormatExactAmounts(posts)
+		for i, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), amounts[i], ccy, pnote)
 		}
 		b.Printf("\n")
 	}
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 484b775..aa43204 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -28,7 +28,8 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 			tnote = "  ; " + tnote
 		}
 		b.Printf("%s %s%s\n", posts.GetDate(), app.FormatLedgerPayee(posts.GetPayee()), tnote)
-		for _, p := range posts {
+		amounts := b.FormatExactAmounts(posts)
+		for i, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
@@ -36,7 +37,7 @@ func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
 
 			ccy := LedgerFormatCurrency(p.GetCCY())
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), amounts[i], pnote)
 		}
 		b.Printf("\n")
 	}
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index 7526f93..918b524 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -90,13 +90,14 @@ func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
 		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), payeeEscape.Replace(posts.GetPayee()), tnote)
-		for _, p := range posts {
+		amounts := b.FormatExactAmounts(posts)
+		for i, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), amounts[i], ccy, pnote)
 		}
 		b.Printf("\n")
 	}
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index d5057f2..51070bc 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -16,25 +16,26 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 		b.Printf("%s %s%s\n", posts.GetDate(), app.FormatLedgerPayee(posts.GetPayee()), tnote)
 
 		// Round the amounts, unless that leaves a balanced transaction unbalanced
-		format := b.FormatRounded
+		amounts := make([]string, len(posts))
 		sums := make(map[string]*big.Rat)
 		roundedSums := make(map[string]*big.Rat)
-		for _, p := range posts {
+		for i, p := range posts {
 			if sums[p.GetCCY()] == nil {
 				sums[p.GetCCY()] = &big.Rat{}
 				roundedSums[p.GetCCY()] = &big.Rat{}
 			}
-			rounded, _ := new(big.Rat).SetString(b.FormatRounded(p.GetCCY(), p.GetAmount()))
+			amounts[i] = b.FormatRounded(p.GetCCY(), p.GetAmount())
+			rounded, _ := new(big.Rat).SetString(amounts[i])
 			sums[p.GetCCY()].Add(sums[p.GetCCY()], p.GetAmount())
 			roundedSums[p.GetCCY()].Add(roundedSums[p.GetCCY()], rounded)
 		}
 		for ccy, sum := range sums {
 			if sum.Sign() == 0 && roundedSums[ccy].Sign() != 0 {
-				format = b.FormatExact
+				amounts = b.FormatExactAmounts(posts)
 			}
 		}
 
-		for _, p := range posts {
+		for i, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
@@ -51,7 +52,7 @@ func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
 				ccy = "\"" + ccy + "\""
 			}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), format(p.GetCCY(), p.GetAmount()), pnote)
+			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), amounts[i], pnote)
 		}
 		b.Printf("\n")
 	}
-- 
2.43.0


From 6ff69217d5b4640f531a6e56c4eda1c52e813531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:54 +0000
Subject: [PATCH 60/63] fix: exact amounts keep the digits of the language

---
 cmd/app/print.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 9b98a37..1583e11 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -270,16 +270,20 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	// just as many digits) and fill in the digits of the exact amount.
 	exact := amount.FloatString(dec)
 	digits := strings.NewReplacer("-", "", ".", "").Replace(exact)
-	f := 1.5 * math.Pow10(len(digits)-dec-1)
+	f := 1.2 * math.Pow10(len(digits)-dec-1)
 	if amount.Sign() < 0 {
 		f = -1 * f
 	}
 	layout := []rune(b.pr.Sprintf("%.*f", dec, f))
 	filled := 0
+	zero := '0'
 	for i, r := range layout {
-		if r >= '0' && r <= '9' {
+		if unicode.IsDigit(r) {
+			if filled == 0 {
+				zero = r - 1
+			}
 			if filled < len(digits) {
-				layout[i] = rune(digits[filled])
+				layout[i] = zero + rune(digits[filled]-'0')
 			}
 			filled++
 		}
-- 
2.43.0


From 6be872281d053249f40534e29658a328f515ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:42 +0000
Subject: [PATCH 61/63] fix: HTML report's class names don't depend on the
 language

---
 cmd/reports/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index b691002..3979248 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mescanne/goledger/cmd/utils"
 	"html"
 	"math/big"
+	"strconv"
 )
 
 var indents = [...]string{
@@ -92,7 +93,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 			}
 
 			thisIndent := indentedString(thisLevel)
-			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
+			b.Printf("%s  <div class=\"post indent%s %s\">\n", thisIndent, strconv.Itoa(thisLevel), diff)
 			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
 			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
-- 
2.43.0


From 99c5f4792d2c7da89d9ce221dbd12d1b3de70507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:38 +0000
Subject: [PATCH 62/63] fix: repeated transactions without payee are numbered
 the way they are read back

---
 book/builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/builder.go b/book/builder.go
index 13e04aa..c47e7e9 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -3,6 +3,7 @@ package book
 import (
 	"fmt"
 	"math/big"
+	"strings"
 )
 
 type Builder struct {
@@ -85,7 +86,7 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 		}
 
 		idx += 1
-		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
+		b.currPayee = strings.TrimSpace(fmt.Sprintf("%s (%d)", payee, idx))
 		key = fmt.Sprintf("%d %s", date, b.currPayee)
 	}
 
-- 
2.43.0


From 8aa469f767ca4b0b4c2986bb71fcd76d725ec5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:28 +0000
Subject: [PATCH 63/63] fix: a divider that repeats a character does not
 overlap itself when an account is split

---
 book/book_accum.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 44152c5..c24a8b5 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -10,23 +10,13 @@ import (
 )
 
 func findMaxCommonPrefix(left string, right string, divider string) string {
-	prefix := 0
-	i := 0
-	for ; i < len(left) && i < len(right); i++ {
-		if left[i] != right[i] {
-			break
-		}
-		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
-			prefix = i
-		}
+	l := strings.Split(left, divider)
+	r := strings.Split(right, divider)
+	n := 0
+	for n < len(l) && n < len(r) && l[n] == r[n] {
+		n++
 	}
-
-	if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
-		(i == len(right) || strings.HasPrefix(right[i:], divider)) {
-		prefix = i
-	}
-
-	return left[0:prefix]
+	return strings.Join(l[:n], divider)
 }
 
 // Rank the accounts by descending value. Equal values have the same rank.
@@ -78,7 +68,8 @@ func splitByStrings(prefixes map[string]bool, acct string, includeSelf bool, div
 			break
 		}
 
-		if strings.HasPrefix(acct[i:], divider) {
+		// A divider doesn't overlap the one before it (eg divider "::" in "A:::B").
+		if i >= last && strings.HasPrefix(acct[i:], divider) {
 			if _, ok := prefixes[acct[:i]]; ok {
 				o = append(o, acct[last:i])
 				last = i + len(divider)
-- 
2.43.0

