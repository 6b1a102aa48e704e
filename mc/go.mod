module mc

go 1.21

require github.com/alexZaicev/go-vtd-xml v0.0.0

replace github.com/alexZaicev/go-vtd-xml => /repo
