module JXLMOD

go 1.25
