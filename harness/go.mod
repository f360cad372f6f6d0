module verif

go 1.25

require github.com/warthog618/sms v0.0.0

replace github.com/warthog618/sms => /repo
