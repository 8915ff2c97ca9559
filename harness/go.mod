module verif/harness

go 1.23

require github.com/funny-falcon/go-iproto v0.0.0

replace github.com/funny-falcon/go-iproto => /repo
