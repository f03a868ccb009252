module verifharness

go 1.18

require gotor v0.0.0

replace gotor => /repo/src
