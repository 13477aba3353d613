#!/usr/bin/env python3
"""Single source of properties.jsonl (run after editing)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":hook}})
PROG="tea/internal/application/program/program.go"
# ------------------------------------------------------------------ tea
prop("T01","Every message is handled exactly once, one at a time, in order",
 "While a program runs, every message accepted by Send, every key or mouse message read from input and every command result is handed to the model's Update exactly once, and the messages of one sender reach Update in the order they were sent. Calls to Init, Update and View never overlap, and each Update receives exactly the model value returned by the previous Update.",
 ["schedules","histories"],"all interleavings of concurrent senders, input, command completions and the event loop; all sequences of messages",
 "The tests send a handful of messages from one goroutine and look at the last state; they cannot enumerate interleavings of senders, commands, input and the loop.",
 [PROG,"tea/tea.go"],[("single event loop goroutine reading a buffered message channel","Run/Start in "+PROG),("executeCommand runs each command in its own goroutine and posts the result",PROG)],
 ["model Init/Update/View calls","Send return values"])
prop("T02","Batch runs every command, Sequence runs them in order",
 "Every command in a Batch runs exactly once and each of its results reaches the model exactly once; the commands of a Sequence run strictly one after another in order and their results reach the model in that order. This holds for any nesting of Batch and Sequence, for nil commands, and for any number of commands, without the program ceasing to process messages.",
 ["schedules","programs"],"all finite trees of Batch/Sequence/leaf/nil commands of any size, all command completion orders",
 "Tests use two or three flat commands; nesting, more results than the internal queue holds and completion orders are not enumerated.",
 [PROG,"tea/internal/domain/service/builtin_cmds.go","tea/tea.go"],[("Batch/Sequence combinators","tea/internal/domain/service/builtin_cmds.go"),("expansion of batch and sequence result messages in the event loop",PROG)],
 ["command start/finish events","Update calls"])
prop("T03","Quit and Stop always end the program, and nothing runs afterwards",
 "Once Quit is called on a running program, or the model's Update returns the quit command, Run returns (and Stop returns with the loop ended) no matter what the event loop, the input or running commands are doing at that moment; a Stop whose model blocks the loop returns after about a second. The program ends only when asked to. After Run has returned, Update and View are never called again, the program reports itself as not running, and Send reports an error.",
 ["schedules","histories"],"all instants at which Quit/Stop/quit command may arrive relative to Init, Update, View, command completion, input and suspension; repeated quits and stops",
 "Tests quit from an idle loop after a sleep; a signal arriving while the loop is busy is a race no test schedules.",
 [PROG,"tea/tea.go"],[("quit channel and QuitMsg handling in the loop",PROG),("Stop waits for the loop to end",PROG)],
 ["Run return","IsRunning","Send error","Update/View calls after return"])
prop("T04","Terminal modes are as found when the program ends, whatever happens",
 "However a program run ends - quit, stop, a panic in the model's Init, Update or View, or a failure of any terminal operation - the terminal is left out of raw mode, out of the alternate screen and with the cursor visible whenever the terminal's own operations allow it. A program never leaves a mode it did not enter and never asks for raw mode or the alternate screen twice without leaving it in between.",
 ["fault_sequences","histories","configurations"],"all combinations of options, all sequences of lifecycle operations (run, suspend, resume, exec, quit, panic), and any single or repeated failure of a terminal operation",
 "Tests check single happy paths on a mock terminal; failures at the n-th terminal call combined with lifecycle sequences are not enumerated.",
 [PROG,"tea/tea.go"],[("setup/cleanup of raw mode and alternate screen in Run/Start",PROG),("Suspend/Resume state flags",PROG)],
 ["calls received by the terminal","terminal mode state after Run returns"])
prop("T05","Suspend, Resume and ExecProcess hand the terminal over and back",
 "After Suspend returns without error, and while an external process run by ExecProcess owns the terminal, the terminal is in cooked mode on the primary screen with a visible cursor and the program writes nothing to its output; after Resume (or when ExecProcess returns) every mode that was active before is active again. Suspend and Resume are idempotent, a failing Suspend or Resume leaves the terminal as it was, the program draws again after Resume, and ExecProcess returns the external process's result.",
 ["histories","fault_sequences","schedules"],"all sequences of suspend/resume/exec/send/quit, all option combinations, any terminal operation failing",
 "Tests call Suspend and Resume once each in one configuration and never send messages in between.",
 [PROG,"tea/internal/application/program/options.go"],[("Suspend/Resume save and restore mode flags",PROG),("ExecProcess wraps the command between Suspend and Resume",PROG)],
 ["terminal calls","bytes written to output while suspended","external process's view of the terminal"])
prop("T06","Input bytes become exactly the right keys, however they are chunked",
 "Feeding any concatenation of key encodings (printable characters of any UTF-8 length, control keys, and the documented escape sequences) to the program yields exactly the corresponding key messages in order, with none lost, duplicated or invented; the text of a key message (String, what applications compare with) names exactly the key and its modifiers. The bytes of one key arrive without a pause, but may be split over reads anywhere; the result does not depend on the split, and unknown escape sequences never corrupt the keys after them.",
 ["inputs","schedules"],"all sequences of encoded keys, all ways the byte stream can be chunked into reads",
 "Tests parse single sequences delivered in one read.",
 ["tea/internal/infrastructure/ansi/parser.go","tea/internal/infrastructure/input/reader.go","tea/internal/infrastructure/input/cancelable_reader.go","tea/api/"],
 [("escape sequence table","tea/internal/infrastructure/ansi/parser.go"),("buffered reading with lookahead","tea/internal/infrastructure/input/reader.go")],
 ["key messages delivered to Update"])
prop("T07","The inline screen always shows exactly the model's current view",
 "After any sequence of views rendered by a running program that does not use the alternate screen and knows the terminal's size, the rows of the terminal from where the program started show exactly the lines of the latest view - each cut to the terminal's width, with the view's own styling and no leftovers from earlier views - and a view taller than the terminal shows its last lines. Re-rendering an unchanged view changes nothing on the screen, and the view's styling never leaks onto anything else.",
 ["inputs","histories"],"all sequences of views over narrow and wide characters, styled text, growing and shrinking line counts, widths around the terminal width",
 "Tests compare emitted strings for two or three frames; they never interpret the bytes as a terminal does.",
 ["tea/internal/infrastructure/renderer/inline.go",PROG],[("line-diff inline renderer","tea/internal/infrastructure/renderer/inline.go")],
 ["bytes written to the program output, interpreted by a terminal"])
prop("T08","An external program gets the whole terminal, and the program gets it back",
 "On a real terminal, an external program started by ExecProcess or ExecProcessWithTTY runs with the terminal in its normal modes and in the process group and foreground its options ask for, and whatever is typed while it runs (or while the program is suspended, or after it has ended) reaches whoever then reads the terminal, every character exactly once: the suspended program takes none of it. A program that was given the terminal is not left stopped, its own exit is what is reported, and afterwards the terminal's foreground group, modes and screen are the program's again, it is drawn again, and everything typed from then on reaches Update.",
 ["histories","schedules"],"all sequences of start/type/suspend/resume/exec/read/stop, all options, how the external program ends, when it first reads the terminal",
 "The tests run without a terminal: pipes and mocks have no foreground group, no line modes and no second reader.",
 [PROG,"tea/internal/application/program/tty_control_linux.go","tea/internal/infrastructure/input/cancelable_reader.go"],[("execWithTTYControl transfers and reclaims the foreground","tea/internal/application/program/tty_control_linux.go"),("Cancel releases stdin","tea/internal/infrastructure/input/cancelable_reader.go")],
 ["what external programs read and report","key messages delivered to Update","the pseudo terminal's attributes, foreground group and output"])
# ------------------------------------------------------------------ render
prop("R01","After every render the terminal shows exactly the buffer",
 "After each Render call, interpreting all bytes written so far as a terminal does gives a screen whose every cell has exactly the character, colours and attributes of the buffer last rendered, whatever buffers were rendered, cleared or resized before. Rendering a buffer identical to the previous one writes nothing that changes the screen.",
 ["inputs","histories"],"all sequences of buffers (sizes, characters including wide ones, styles), with Clear and Resize in between",
 "Tests compare substrings of output for single frames; no test interprets the byte stream cumulatively.",
 ["render/renderer.go","render/internal/"],[("diff of previous and next buffer into operations","render/internal/domain/service"),("ANSI writer with style and cursor tracking","render/internal/infrastructure/ansi")],
 ["bytes written to the output"])
# ------------------------------------------------------------------ core
prop("C01","Display width is additive and matches terminal cell counts",
 "The width of a text is the sum of the widths of its user-perceived characters (extended grapheme clusters), wherever it is reported: by StringWidth, as the width of a cell made automatically, and in the space that style and layout give the text; and measuring what is left of the text after any of its characters gives the rest of the sum. Printable ASCII and other narrow characters count one cell; controls and combining marks none; East Asian wide characters and emoji (flags of two letters, with skin tones, joined families, emoji presentation) exactly two; a pictograph with the text presentation selector one.",
 ["inputs"],"all texts over ASCII, narrow scripts, combining marks, East Asian wide characters, emoji with their modifiers, joiners and presentation selectors, regional indicators and controls",
 "Tests sample fixed strings; the laws quantify over all concatenations.",
 ["core/core.go","core/internal/domain/service/unicode_service.go","layout/layout.go","style/"],[("grapheme segmentation and width","core/internal/domain/service/unicode_service.go")],
 ["StringWidth and NewCellAuto results, width of what style and layout render"])
prop("C02","Terminal capabilities follow the documented environment precedence",
 "For every environment, the detected capabilities are those of the documented precedence: a non-empty NO_COLOR disables everything; else FORCE_COLOR decides (0 none, 1 eight colours, 2 256 colours, anything else true colour); else the platform: Windows by WT_SESSION and the vscode program, others by COLORTERM, TERM_PROGRAM and TERM in that order, with at most 256 colours in Apple_Terminal, and nothing at all when TERM is empty or dumb on Unix. Colour, mouse, alternate screen and cursor control are never detected without ANSI support.",
 ["configurations"],"all combinations of the environment variables that matter, their relevant values, and the platforms",
 "Tests set one variable at a time.",
 ["core/core.go","core/internal/domain/service/capabilities_detector.go"],[("priority chain and platform rules","core/internal/domain/service/capabilities_detector.go")],
 ["AutoDetect capabilities"])
prop("C03","Terminals and the values of package core are immutable and always valid",
 "However terminals are made from each other (WithSize, WithRawMode), no operation changes a terminal made before; sizes are at least 1x1, positions at least 0,0 also after moving by any offset, cell widths at least 0, the colour depth is one of none, 8, 256 and true colour, and mouse, alternate screen and cursor control are only reported with ANSI support. Raw mode cannot be made without an original state.",
 ["histories","inputs"],"all sequences of constructors and With calls with all integers",
 "Tests call each method once on a fresh value.",
 ["core/core.go","core/internal/domain/"],[("clamping constructors","core/internal/domain/value")],
 ["getters of Terminal, Capabilities, Size, Position, Cell, RawMode"])
# ------------------------------------------------------------------ terminal
prop("X01","Terminal operations have exactly their documented screen effect",
 "Interpreting the bytes written by any sequence of terminal operations (cursor moves, save/restore, writes, clears of screen, line or n lines, cursor visibility and alternate screen) as a terminal does gives exactly the cursor position, cells, visibility and screen that the operations' documentation promises. Entering a mode already entered or leaving one not entered reports an error and writes nothing.",
 ["histories","inputs"],"all sequences of terminal operations with all small arguments, starting from any screen content",
 "Tests compare the escape string of single calls.",
 ["terminal/terminal.go","terminal/internal/"],[("ANSI terminal implementation","terminal/internal/infrastructure/unix/ansi.go")],
 ["bytes on stdout, return values"])
prop("Y01","The mock and null terminals behave like a terminal that records calls",
 "After any sequence of operations from any number of goroutines, the mock terminal has recorded every call exactly once, in an order consistent with each caller's order, with its arguments, and its mode state and errors follow the same rules as a real terminal's. The null terminal accepts every operation and reports a stable configuration; neither ever writes to the real terminal.",
 ["schedules","histories"],"all sequences and interleavings of terminal operations",
 "Tests call each method once from one goroutine.",
 ["testing/mock_terminal.go","testing/null_terminal.go"],[("mutex-protected call log","testing/mock_terminal.go")],
 ["Calls list, CallCount, mode state"])
# ------------------------------------------------------------------ mouse
prop("M01","Click, double click and triple click are recognised exactly",
 "A release which does not end a drag yields exactly one click event, ahead of the release itself, with its button, position and modifiers; its kind (single, double, triple, then single again) is determined by how many clicks preceded it in a row, each of the same button, at most 500 ms later and at most one cell away. Another button, another place or a longer wait starts a fresh count, as does a reset. A release at least two cells from its press, or after the pointer was that far away, is no click.",
 ["histories"],"all sequences of presses, releases, motions, wheel steps and resets with arbitrary positions, buttons, protocols and times",
 "Tests run single double-click examples; counts depend on whole histories of times and positions.",
 ["mouse/mouse.go","mouse/internal/domain/service/"],[("click detector","mouse/internal/domain/service/click_detector.go"),("event processor","mouse/internal/application")],
 ["events returned by the handler"])
prop("M02","Drags start once past the threshold and end exactly once",
 "After a press, a drag begins exactly when the pointer has moved at least two cells from the press position; this and every later motion until the release is a drag event at its position with the button and modifiers of the press (also when the pointer comes back), and the release ends the drag exactly once. Before that, and without a press since the last release, motions are plain motion events and no drag is reported; a new press or a reset never inherits an old drag.",
 ["histories"],"all sequences of presses, motions, releases, wheel steps and resets",
 "Tests follow one press-move-release path.",
 ["mouse/internal/domain/service/drag_tracker.go","mouse/mouse.go"],[("drag tracker state machine","mouse/internal/domain/service/drag_tracker.go")],
 ["drag state and events"])
prop("M03","Mouse protocol decoding recovers the event that was encoded",
 "For each supported protocol (SGR, X10, URxvt), decoding the bytes a terminal sends for a press, release, motion or wheel event at any coordinates with any button and modifiers gives back that event type, button, modifiers and zero-based position, as far as the protocol carries them (motion reports no button; an X10 or URxvt release is that of the pressed button). Wheels and buttons without a name are reported without a button. Malformed sequences are rejected with an error, never crash, produce an event or change what is pressed.",
 ["inputs"],"all buttons, modifiers, event kinds and coordinates per protocol; arbitrary malformed byte strings",
 "Tests decode a sample of sequences.",
 ["mouse/internal/infrastructure/","mouse/mouse.go"],[("protocol parsers","mouse/internal/infrastructure/parser")],
 ["parsed events"])
prop("M04","Context menus stay on screen and next to the pointer",
 "For every screen size, menu size and pointer position inside the screen, a context menu that fits on the screen is placed entirely inside it, at the pointer when there is room and otherwise moved only as far as needed; one that does not fit is placed at the top left corner. The hover tracker reports entering an area (also straight from another one), moving inside it and leaving to no area exactly when the pointer does so, where the first of overlapping areas counts and an area includes its left and top edge but not its right and bottom one.",
 ["inputs","histories"],"all screen, menu and pointer coordinates; all sequences of pointer moves over all (also changing) area layouts",
 "Tests sample corner positions.",
 ["mouse/internal/domain/service/menu_positioner.go","mouse/internal/domain/service/hover_tracker.go","mouse/mouse.go"],[("position clamping","mouse/internal/domain/service/menu_positioner.go")],
 ["returned position","hover events"])
prop("M05","The terminal reports the mouse exactly while it is switched on",
 "Enabling mouse tracking puts the terminal in SGR and button-motion reporting, disabling takes it out of every mode that was set; after any sequence of the two, repeated ones included, the terminal is in exactly the modes IsEnabled tells. When standard output cannot be written, the operation reports an error and the state stays what it was.",
 ["histories","fault_sequences"],"all sequences of enabling, disabling and output failures",
 "Tests enable and disable once and never fail the output.",
 ["mouse/internal/infrastructure/platform/terminal_mode.go","mouse/mouse.go"],[("terminal mode","mouse/internal/infrastructure/platform/terminal_mode.go"),("sequences","mouse/internal/infrastructure/ansi/mouse_ansi.go")],
 ["bytes written to standard output, IsEnabled"])
# ------------------------------------------------------------------ clipboard
prop("K01","The clipboard uses the first available provider and never lies",
 "Every read and write goes to the first provider in the chain that reports itself available at that moment, and to no other: custom providers first, then the OSC 52 terminal sequence, then the native tools; a clipboard made with New prefers OSC 52 in an SSH session on a terminal and the native tools otherwise. With none available every operation reports an error and the provider name is none. A write which reports success has handed exactly those bytes to the provider, a write which fails (empty text, no provider, provider failure) says so, and content read back is what the provider holds, byte for byte; a failed write leaves the history unchanged.",
 ["histories","fault_sequences","configurations"],"all provider chains, availability changes, environments, provider failures and operation sequences",
 "Tests use one or two fixed mock providers with single operations, and write the OSC 52 sequence to regular files only.",
 ["clipboard/clipboard.go","clipboard/internal/"],[("provider chain","clipboard/internal/domain/service/clipboard_service.go and clipboard/internal/application/clipboard_manager.go"),("OSC 52 and native providers","clipboard/internal/infrastructure")],
 ["operation results, provider calls, bytes sent to the terminal"])
prop("K02","Clipboard history is bounded, newest first and expires",
 "With history enabled, every successful copy adds exactly one entry with its content, type and time, the history never exceeds its size limit of whatever size (dropping the oldest first; zero or less means no limit), and lists entries newest first, also when the clock has not moved between copies. Removing expired entries removes exactly those older than the age limit and says how many; entries can be found by id and restored, which copies them again; enabling anew, disabling or clearing empties the history; a failed copy adds nothing; the caller's changes to returned entries do not affect it; and copies made concurrently are neither lost nor duplicated.",
 ["histories","schedules"],"all sequences and interleavings of copies, clears, expiries, enable/disable and restores for all size and age limits",
 "Tests add a few entries with one limit.",
 ["clipboard/clipboard.go","clipboard/internal/domain/service/clipboard_history.go","clipboard/internal/domain/model/history_entry.go"],[("bounded history list","clipboard/internal/domain/service/clipboard_history.go")],
 ["GetHistory, GetRecentHistory, GetHistoryEntry results"])
prop("K03","Clipboard text and rich text survive their encodings unchanged",
 "Text written through the terminal clipboard escape sequence (OSC 52) decodes, as a terminal would, to exactly the original bytes. A non-empty text encoded with bold, italic, underline and colour to HTML or RTF is read by a standard HTML or RTF reader as exactly that text with exactly those styles, and decoded again by the library gives the original text and styles, for any content including markup characters, line breaks and non-ASCII text; converting one format to the other and reading either as plain text preserve the text (carriage returns are dropped in RTF) and the styles.",
 ["inputs"],"all byte strings; all style combinations; all content strings including markup characters and any Unicode",
 "Tests round-trip simple ASCII strings.",
 ["clipboard/internal/infrastructure/osc52","clipboard/internal/domain/service/richtext_codec.go"],[("OSC 52 writer","clipboard/internal/infrastructure/osc52"),("HTML/RTF codecs","clipboard/internal/domain/service/richtext_codec.go")],
 ["bytes written","decoded text and styles"])
# ------------------------------------------------------------------ style / layout
prop("S01","Styled boxes are exact rectangles of the requested geometry",
 "Rendering any plain text with any size, padding, margin, border and alignment gives lines that all occupy the same number of terminal cells (a text with none of these is returned as it is), with width and height equal to content plus padding, border and margin, the border closed around the padded content (drawn on the chosen sides only), and every line of the content placed where the alignment says. The exact width and height set the size of the content area, and content which does not fit there is cut at whole characters; content inside the requested size is neither lost nor altered, whatever characters it contains. Minimum and maximum sizes are compared with the natural size of the box, and a box outside them is rendered as the bare text. Setters never change the style they are called on.",
 ["inputs","configurations"],"all content (multi-line, wide, combining), all combinations of size, padding, border, margin, alignment and colours",
 "Tests compare a few fixed strings with ASCII content.",
 ["style/style.go","style/internal/application/command/render.go","style/internal/domain/service"],[("render pipeline","style/internal/application/command/render.go")],
 ["rendered string interpreted by a terminal"])
prop("S02","Colours and decorations cover exactly the styled content",
 "Interpreting rendered output as a terminal does, every content cell has exactly the requested foreground, background, bold, italic, underline and strikethrough attributes, and after the output the terminal's attributes are back to default so nothing leaks. Border cells have the border colour, and styling one part of the box never strips another part.",
 ["inputs","configurations"],"all combinations of colours, decorations, borders, multi-line contents and colour depths",
 "Tests look for substrings of escape codes.",
 ["style/internal/application/command/render.go","style/internal/infrastructure/ansi"],[("ANSI code generation","style/internal/infrastructure/ansi"),("border renderer","style/internal/domain/service")],
 ["SGR state per cell of the rendered output"])
prop("S03","Colours degrade to the nearest colour the terminal supports",
 "For every RGB colour the code emitted at true colour is exactly that colour, at 256 colours a palette entry nearest to it on the colour cube or grey ramp, at 16 colours the nearest of the standard sixteen, and without colour support nothing is emitted. (At 256 colours, greys darker than 8 count as black and greys lighter than 238 as white, the corners of the cube.) Foreground, background and border colours degrade alike. Hex, RGB and palette constructors agree with each other and reject malformed input.",
 ["inputs"],"all 2^24 colours and all colour depths; all hex strings",
 "Tests sample a few primary colours.",
 ["style/internal/domain/value/color.go","style/internal/domain/service/color_adapter.go"],[("nearest-colour mapping","style/internal/domain/service/color_adapter.go")],
 ["emitted SGR parameters"])
prop("S04","Themes are immutable values and the theme manager is linearizable",
 "Deriving a theme with changes never alters the original, and merging takes each set field from the override and every other field from the base (black colours, hidden borders and spacings below one count as not set; the name is always the override's). Concurrent reads, sets, merges, presets and resets on a theme manager behave as if executed one at a time: every read returns a theme that was current at some instant during the call, and no update is lost.",
 ["schedules","histories"],"all interleavings of manager operations; all derivation sequences",
 "Tests run a few goroutines and check only that nothing panics.",
 ["style/theme.go","style/internal/domain/model"],[("read-write lock around the current theme","style/internal/domain/service/theme_manager.go")],
 ["theme values read"])
prop("L01","Flex layout distributes space exactly and never overlaps",
 "For every container, direction, justification, alignment, gap and set of items, items appear in order without overlapping, separated by at least the gap, with the free space distributed as the justification says and the cross position as the alignment says; items fitting the container lie entirely inside it and what does not fit is clipped. Stretched items fill the cross axis as far as their own limits allow. The picture is exactly as large as the container, and shows every item as its box alone is rendered, whatever characters it contains.",
 ["inputs","configurations"],"all containers, items, gaps, justifications and alignments",
 "Tests check a few layouts with two or three items.",
 ["layout/layout.go","layout/internal/domain"],[("flex layout service","layout/internal/domain/service")],
 ["positions and sizes in rendered output"])
prop("L02","Layout boxes render as closed rectangles around their content",
 "A rendered box shows its content unchanged, surrounded by the requested padding, border and margin, as lines of equal terminal width, whatever characters the content contains (bare text is returned as it is). Size constraints bound the outer size, with the content aligned in the room left or cut at whole characters, and rendering twice gives the same. Asked for its place in a parent, a box is where its alignment says.",
 ["inputs","configurations"],"all contents and all padding, border and margin values",
 "Tests use ASCII content only.",
 ["layout/layout.go","layout/internal/domain/model/box.go"],[("box rendering","layout/internal/domain/model")],
 ["rendered lines"])
# ------------------------------------------------------------------ components
prop("V01","A viewport always shows the right slice of its content",
 "After any sequence of content, size, scroll, key and wheel operations the viewport's offset stays between zero and the last full page, the visible lines are exactly the content lines from the offset (cut or wrapped to the width, never more than the height), and at-top/at-bottom agree with that. In follow mode the newest line stays visible until the user scrolls up and again after returning to the bottom.",
 ["histories","inputs"],"all sequences of viewport operations over all contents and sizes",
 "Tests exercise single operations on fixed content.",
 ["components/viewport/viewport.go","components/viewport/internal"],[("offset clamping","components/viewport/internal/domain")],
 ["View, offsets, at-top/at-bottom"])
prop("V02","List focus and selection stay valid through any interaction",
 "After any sequence of keys, filter edits and resizes, the items listed are exactly those the filter text accepts in their order, the focused item is one of them, selections refer to listed items (at most one in single-select mode, none after the filter changes), and selected items are reported in list order exactly as the user toggled them. The view shows at most the configured number of rows, in order, always including the focused item.",
 ["histories","inputs"],"all sequences of list operations, all item counts and heights",
 "Tests follow short fixed key sequences.",
 ["components/list/list.go","components/list/internal"],[("navigation and selection services","components/list/internal/domain")],
 ["SelectedItems, FocusedIndex, View"])
prop("V03","Table rows keep their cells and the selected row stays in view",
 "After any sequence of navigation, sorting and data changes the table shows a contiguous run of rows of the (sorted) data that includes the selected row, every cell in its column with exactly the column's width. Sorting is stable, ordered by the value in the chosen column and the direction, and never loses, duplicates or mixes up rows; clearing the sort restores the original order.",
 ["histories","inputs"],"all sequences of table operations over all data sets",
 "Tests sort small fixed tables.",
 ["components/table/table.go","components/table/internal"],[("stable sort service","components/table/internal/domain/service")],
 ["View, SelectedRow, VisibleRows"])
prop("V04","Select always confirms exactly the option under the cursor",
 "After any sequence of keys and filter edits, the options shown are exactly those whose label contains the filter text in original order, the cursor is on one of them and inside the shown window, and confirming yields the value of the option under the cursor. With no match nothing is confirmed anew, and editing the filter treats each typed character as one unit.",
 ["histories","inputs"],"all key sequences over all option lists, including non-ASCII filter text",
 "Tests follow short fixed key sequences.",
 ["components/select/select.go","components/select/internal"],[("cursor and filter model","components/select/internal/domain")],
 ["View, selected value, confirm message"])
prop("V05","Multi-select respects its limits and remembers every choice",
 "After any sequence of keys and filter edits the number of selected options never exceeds the maximum, confirming succeeds only when the minimum is met, and the confirmed values are exactly the toggled options in original order, including those a filter currently hides. Select-all and select-none affect exactly the options they are documented to affect.",
 ["histories","inputs"],"all key sequences over all option lists and limits",
 "Tests follow short fixed key sequences.",
 ["components/multiselect/multiselect.go","components/multiselect/internal"],[("selection model with limits","components/multiselect/internal/domain")],
 ["View, selected values, confirm message"])
prop("V06","Text input edits whole characters and keeps the cursor in range",
 "After any sequence of typing, deletion, cursor movement, selection and programmatic edits, the text is exactly what those edits produce on a sequence of user-perceived characters, the cursor lies between characters within the text, and the displayed line shows the part of the text around the cursor within the field's width. No edit ever splits a multi-byte or multi-code-point character.",
 ["histories","inputs"],"all edit sequences over ASCII, combining, CJK and emoji text and all widths",
 "Tests edit short fixed strings.",
 ["components/input/input.go","components/input/internal"],[("grapheme-indexed text model","components/input/internal/domain")],
 ["Value, cursor position, View"])
prop("V07","Text area edits behave as a text editor's, keeping cursor and view valid",
 "After any sequence of typing, newlines, deletions, kills, yanks and movements, the lines are exactly what those edits produce, the cursor is inside the text and within the visible window, and killed text yanks back unchanged. Line and character limits are never exceeded by user edits, read-only text never changes, and no movement or backward deletion by the user takes the cursor to a position that the movement validator refuses; observers hear of each movement made or refused.",
 ["histories","inputs"],"all edit sequences over single- and multi-byte text, all sizes and limits",
 "Tests check single edits at fixed positions.",
 ["components/input/textarea","components/input/internal"],[("buffer, cursor and kill ring models","components/input/textarea/internal/domain")],
 ["Value, CursorPosition, View"])
prop("V08","Forms submit only when every field is valid and focus stays in range",
 "After any sequence of messages exactly one field of a non-empty form is focused, tabbing cycles through all fields, and submission happens exactly when every validator accepts its field's current value; otherwise every failing field reports its error. Values reported are those currently held by the fields, and building a form from another never changes the original.",
 ["histories","configurations"],"all sequences of keys and edits over all field and validator combinations",
 "Tests run fixed flows over two or three fields.",
 ["components/form/form.go","components/form/internal"],[("form model, validation","components/form/internal/domain")],
 ["submit messages, errors, focus"])
prop("V09","Confirm and modal dialogs answer exactly what the user chose",
 "After any sequence of keys a confirm dialog is answered at most once, with the answer of the focused or directly chosen button, cancels exactly on its cancel keys, and ignores everything afterwards; focus always is on one button. A modal keeps track of the terminal's size even while hidden, reacts to keys only while visible, reports a button exactly when it is activated, and closes exactly on its close keys; while visible it is drawn as a closed box of exactly its size in terminal cells, centred in the current terminal or at its given position, with its text cut to fit.",
 ["histories","configurations"],"all key sequences over all button configurations",
 "Tests press one or two keys.",
 ["components/confirm/confirm.go","components/modal/modal.go"],[("dialog state machines","components/confirm/internal, components/modal/internal")],
 ["messages, Done/Result/IsVisible"])
prop("V10","Progress stays within bounds and its bar shows the percentage",
 "After any sequence of set, increment, decrement and tick operations a progress value is between 0 and 100, the bar has exactly its configured width with filled cells in proportion to the value, and completion is reported exactly at 100. A spinner shows its frames in order, cycling, one per tick.",
 ["histories","inputs"],"all operation sequences, widths and styles",
 "Tests sample a few values.",
 ["components/progress"],[("bar and spinner models","components/progress/internal/domain")],
 ["View, percentage"])
P.sort(key=lambda p:p["id"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
