module verif/harness

go 1.25.1

require (
	github.com/phoenix-tui/phoenix v0.2.4
	github.com/phoenix-tui/phoenix/components v0.2.4
	github.com/phoenix-tui/phoenix/tea v0.2.4
)

require (
	github.com/phoenix-tui/phoenix/core v0.2.4 // indirect
	github.com/phoenix-tui/phoenix/style v0.2.4 // indirect
	github.com/phoenix-tui/phoenix/terminal v0.2.4 // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	github.com/unilibs/uniwidth v0.2.0 // indirect
	golang.org/x/sys v0.40.0 // indirect
	golang.org/x/term v0.39.0 // indirect
)

replace github.com/phoenix-tui/phoenix/clipboard => /repo/clipboard

replace github.com/phoenix-tui/phoenix/components => /repo/components

replace github.com/phoenix-tui/phoenix/core => /repo/core

replace github.com/phoenix-tui/phoenix/layout => /repo/layout

replace github.com/phoenix-tui/phoenix/mouse => /repo/mouse

replace github.com/phoenix-tui/phoenix/render => /repo/render

replace github.com/phoenix-tui/phoenix/style => /repo/style

replace github.com/phoenix-tui/phoenix/tea => /repo/tea

replace github.com/phoenix-tui/phoenix/terminal => /repo/terminal

replace github.com/phoenix-tui/phoenix/testing => /repo/testing

replace github.com/phoenix-tui/phoenix => /repo
