module verif/harness

go 1.24.0

require github.com/si3nloong/sqlgen v0.0.0

replace github.com/si3nloong/sqlgen => /repo
