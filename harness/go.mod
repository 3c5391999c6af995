module verifharness

go 1.24.0

require (
	github.com/nyaruka/phonenumbers/v2 v2.0.0
	golang.org/x/text v0.34.0
	google.golang.org/protobuf v1.36.11
)

replace github.com/nyaruka/phonenumbers/v2 => /repo
