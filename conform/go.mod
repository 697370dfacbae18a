module github.com/mewmew/float/conform

go 1.13
