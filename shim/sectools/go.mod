module github.com/hyp3rd/sectools

go 1.24
