module verif

go 1.23

require (
	github.com/clipperhouse/jargon v0.0.0
	github.com/clipperhouse/uax29 v1.11.0
	github.com/kljensen/snowball v0.6.0
	golang.org/x/net v0.0.0-20220607020251-c690dde0001d
	golang.org/x/text v0.3.7
)

replace github.com/clipperhouse/jargon => /repo
