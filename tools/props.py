PROPS = [
 dict(id='P01', title='Console markup yields exactly the styled text that was written',
  statement="Parsing console markup either fails with an error or yields plain text in which every tag is removed and every escape is resolved, and each character carries exactly the styles, colours, links and actions of the tags that enclose it, inner tags taking precedence over outer ones. No input, however malformed or non-ASCII, makes the parser panic or return spans outside the text or inside a character.",
  over=['inputs'], text='every markup document: any nesting and order of style, colour, link and action tags, named/auto/omitted closers, escapes, multibyte text, and every garbage string',
  why='tests parse a few dozen fixed short documents; the guarantee is over every nesting of tags and every byte string',
  files=['crates/rich/src/parser/lexer.rs','crates/rich/src/parser/markup.rs','crates/rich/src/parser/tag.rs','crates/rich/src/markup.rs','crates/rich/src/style.rs','crates/rich/src/color.rs'],
  mech=[('tag stack and span creation','crates/rich/src/parser/markup.rs'),('segment iterator and style_at','crates/rich/src/markup.rs'),('escape and tag lexer','crates/rich/src/parser/lexer.rs')],
  observe=['plain text, spans, style_at(offset) and segments() of every parsed document'],
  tech='reference-model monitor over generated documents', note='600k documents per quick run, each compared character by character with an independent nesting-tree model; garbage strings monitored for panics and span bounds'),
 dict(id='P02', title='Colour literals and colour arithmetic mean what they say',
  statement="Every supported colour literal (hex, rgb(a), hsl(a), CSS names, transparent, auto, in any letter case and spacing) parses to the colour it denotes and every other string is rejected without panicking. Compositing, tinting, lightening, darkening, contrast and theme palette generation give the mathematically defined colour with channels and alpha always in range.",
  over=['inputs'], text='all literals and strings, all channel and alpha values including out-of-range and non-finite numbers, all themes',
  why='tests check a handful of literals and blends; the colour space and the string space are not sampled',
  files=['crates/tcss/src/types/color.rs','crates/tcss/src/types/theme.rs'],
  mech=[('literal parser','crates/tcss/src/types/color.rs'),('colour arithmetic','crates/tcss/src/types/color.rs'),('palette generation','crates/tcss/src/types/theme.rs')],
  observe=['parsed colours and arithmetic results'],
  tech='reference-model monitor (independent f64 colour model)', note='400k literals/operations/palettes per quick run compared with an independent model; ±1 rounding left free'),
 dict(id='P03', title='A stylesheet means exactly the declarations it contains',
  statement="Parsing a stylesheet never panics, and each supported declaration in it sets exactly the style fields it names to the value it denotes, regardless of whitespace, comments, letter case, property order, !important markers or neighbouring unknown declarations, which are ignored without affecting anything else. When several declarations of one rule set the same field the last one wins.",
  over=['inputs','programs'], text='every stylesheet: all supported properties with all value forms, noise and garbage or truncated sources',
  why='tests cover each property with one or two values in clean formatting; combinations, noise and malformed neighbours are unsampled',
  files=['crates/tcss/src/parser/mod.rs','crates/tcss/src/parser/cascade.rs','crates/tcss/src/types/mod.rs'],
  mech=[('declaration parsers','crates/tcss/src/parser'),('declaration application','crates/tcss/src/parser/cascade.rs')],
  observe=['the computed style of a matching widget, field by field'],
  tech='reference-model monitor over generated stylesheets plus panic monitor on mutated sources', note='250k stylesheets per quick run over all supported properties, compared field by field with an independent model'),
 dict(id='P04', title='Selectors, nesting and the cascade follow CSS',
  statement="A rule applies to a widget exactly when one of its selectors matches the widget and its chain of ancestors under CSS semantics (type, class, id, universal, state and theme pseudo-classes, child and descendant combinators, nested rules with and without the parent reference). Among the rules that apply, each style field comes from the one with the highest specificity, later source order breaking ties.",
  over=['inputs','programs','configurations'], text='every stylesheet structure (nesting, selector lists, combinators) and every widget ancestor chain, state and theme',
  why='tests use one selector form at a time on two or three widgets; interactions of combinators, nesting and specificity are not enumerated',
  files=['crates/tcss/src/parser/cascade.rs','crates/tcss/src/parser/stylesheet.rs','crates/tcss/src/parser/flatten.rs'],
  mech=[('selector matching and cascade order','crates/tcss/src/parser/cascade.rs'),('nesting flattener','crates/tcss/src/parser')],
  observe=['the computed style of the leaf of a widget chain'],
  tech='reference-model monitor (independent matcher, flattener and cascade)', note='200k (stylesheet, widget chain) pairs per quick run compared with an independent set-based matcher and cascade'),
 dict(id='P05', title='Stylesheet variables substitute exactly, and theme colours follow the theme',
  statement="A stylesheet that uses user variables computes the same styles as the same stylesheet with every variable written out, wherever and in whatever order the variables are defined, including variables defined through other variables and names that are prefixes of each other. Variables the stylesheet does not define resolve against the active theme at the moment styles are computed.",
  over=['inputs','programs','configurations'], text='every placement, chaining, redefinition and use of variables, under every theme',
  why='tests define one or two variables before their use; chains, prefixes, shadowing and placements are not sampled',
  files=['crates/tcss/src/parser/variables.rs','crates/tcss/src/parser/cascade.rs','crates/tcss/src/types/theme.rs'],
  mech=[('variable extraction and substitution','crates/tcss/src/parser/variables.rs'),('theme colour resolution','crates/tcss/src/parser/cascade.rs')],
  observe=['computed styles under two themes'],
  tech='differential/reference-model monitor', note='200k stylesheets per quick run compared with the same declarations written without variables'),
 dict(id='P06', title='Incremental restyling equals a full restyle, with CSS inheritance',
  statement="After any sequence of state changes to a widget tree (classes, disabled, focus, hover, active, visibility, inline styles) an incremental restyle leaves every visible widget with exactly the style a restyle of the whole tree from scratch would give it. A widget without its own colour or visibility takes its parent's, its inherited background is its ancestors' backgrounds composited, and inline styles override everything.",
  over=['histories','programs','inputs'], text='all widget trees, stylesheets and histories of state changes with restyles at arbitrary points',
  why='tests restyle a fresh tree once; stale styles only appear after particular histories of changes on particular tree shapes',
  files=['crates/textual/src/style_resolver.rs','crates/textual/src/widget.rs','crates/textual/src/containers.rs','crates/textual/src/macros.rs','crates/tcss/src/types/mod.rs'],
  mech=[('dirty propagation and inherited context','crates/textual/src/style_resolver.rs'),('dirty marking in setters','crates/textual/src/widget/*.rs, crates/textual/src/containers/*.rs')],
  observe=['every visible widget style after every restyle'],
  tech='history monitor: state-change log replayed against a full-restyle model', note='200k trees with 1.2M state changes per quick run; every visible widget style compared after every restyle'),
 dict(id='P07', title='Operations on styled lines conserve every cell',
  statement="Cropping, dividing, joining, padding, aligning, justifying, simplifying, styling, tinting, fading and hatching a styled line yield exactly the requested width and neither lose, duplicate, reorder nor restyle any character beyond what the operation says: each cell keeps its text, style and action metadata, wide characters are never split into two visible halves, and the reported width is always the number of cells the text occupies.",
  over=['inputs','histories'], text='every line of styled segments (wide, combining and emoji graphemes, action metadata) and every sequence of operations',
  why='tests apply one operation to short ASCII lines; wide characters at cut points and operation sequences are not sampled',
  files=['crates/textual/src/strip.rs','crates/textual/src/segment.rs','crates/textual/src/grapheme.rs'],
  mech=[('strip operations','crates/textual/src/strip.rs'),('segment split and styling','crates/textual/src/segment.rs')],
  observe=['cells (text, style, metadata) and width after every operation'],
  tech='reference-model monitor (array of cells) over operation histories', note='400k lines with 1-6 operations each per quick run, compared cell by cell with an array-of-cells model'),
 dict(id='P08', title='Wrapped and aligned text loses nothing and never overflows',
  statement="Text laid out at any width, plain or marked up, shows every non-blank character exactly once, in order and with its own style and action; no line is wider than the width allows, lines break greedily at whitespace, and words are split only when they alone do not fit. Clipped, folded and ellipsised text is cut at exactly the width, line ends are flagged only at the end of a logical line, and a text widget places these lines exactly as its content and text alignment say.",
  over=['inputs','configurations'], text='every text and markup, every width, wrap and overflow mode, alignment and region size',
  why='tests wrap a few ASCII sentences at one width; styled, wide-character, whitespace-heavy and multi-line texts at other widths are not covered',
  files=['crates/textual/src/content.rs','crates/textual/src/widget/static_widget.rs'],
  mech=[('wrapping and truncation','crates/textual/src/content.rs'),('alignment and rendering','crates/textual/src/widget/static_widget.rs')],
  observe=['wrapped lines (cells, line-end flags) and the canvas cells of rendered text widgets'],
  tech='reference-model monitor (greedy cell-level wrapper and aligner)', note='300k texts per quick run wrapped and rendered, compared cell by cell with an independent wrapper/aligner'),
 dict(id='P09', title='Painting on the canvas is clipped, composited and ordered exactly',
  statement="Whatever is painted on the canvas, every cell ends up showing the topmost thing painted there: nothing outside the current clip region or the canvas is ever touched, later paint replaces earlier paint, translucent colours blend with what lies below, and pushing and popping clip regions nests. Wide characters occupy both their cells or none, and no character can corrupt a neighbouring cell.",
  over=['inputs','histories'], text='all canvas sizes and all sequences of painting, clipping and clearing operations with any coordinates, characters and colours',
  why='tests paint a few ASCII characters on one canvas; clip nesting, far-off coordinates, wide characters and translucent layers are not combined',
  files=['crates/textual/src/canvas.rs'],
  mech=[('cell painting and compositing','crates/textual/src/canvas.rs'),('clip stack','crates/textual/src/canvas.rs')],
  observe=['every canvas cell after every operation'],
  tech='reference-model monitor (cell-array painter) over operation histories', note='150k operation sequences per quick run, every cell compared after every operation with an independent painter'),
 dict(id='P10', title='The terminal shows exactly the canvas after every flush',
  statement="After any history of frames, the bytes written to the terminal leave its screen showing exactly the canvas: every cell has the canvas's character, colours and attributes, whatever was on the screen before the first frame, after incremental updates, after an invalidation and in the last column. No text shown by an application can send control sequences to the terminal.",
  over=['histories','inputs'], text='all sequences of frames, contents and invalidations, and any initial screen content',
  why='tests look at single frames in memory; what a terminal shows after many incremental flushes is never observed',
  files=['crates/textual/src/canvas.rs'],
  mech=[('incremental flush','crates/textual/src/canvas.rs')],
  observe=['bytes on file descriptor 1 interpreted by a terminal emulator after every flush'],
  tech='online trace monitor: terminal emulator over the captured byte stream', note='60k frame histories per quick run; captured bytes replayed in an emulator and compared cell by cell after every flush'),
 dict(id='P11', title='Exported screens show what the canvas shows',
  statement="A screen exported as SVG, as plain text or as ANSI text shows the same characters at the same cells as the canvas, and the SVG and ANSI exports the same colours and text attributes (bold, italic, underline, strikethrough). The SVG is always well-formed XML whatever text is on the screen.",
  over=['inputs'], text='all canvas contents: any characters, markup-significant characters, wide characters, colours and attributes',
  why='snapshot tests export fixed screens; escaping, wide characters and run boundaries on other contents are not covered',
  files=['crates/textual/src/svg.rs','crates/textual/src/canvas.rs'],
  mech=[('SVG export','crates/textual/src/svg.rs'),('snapshots','crates/textual/src/canvas.rs')],
  observe=['exported documents parsed back into cells'],
  tech='round-trip monitor (strict XML parser and escape-sequence interpreter)', note='exports of random scenes parsed back and compared cell by cell with the canvas'),
 dict(id='P12', title='Vertical and horizontal layouts place children exactly',
  statement="In a vertical or horizontal container every child in the flow gets exactly one region, in order, one after the other, separated by the larger of adjacent margins, with the size its width, height, minimum, maximum, box sizing and content say. Fraction-sized children share exactly the space the others leave, down to the last cell, in proportion to their fractions; nothing depends on where the container is.",
  over=['inputs','configurations'], text='all combinations of child sizes in every unit, margins, chrome, box sizing and constraints, and all container regions',
  why='tests arrange two or three children in one region; units, constraints, margins and rounding are not combined',
  files=['crates/textual/src/layouts/vertical.rs','crates/textual/src/layouts/horizontal.rs','crates/textual/src/layouts/size_resolver.rs','crates/textual/src/fraction.rs'],
  mech=[('vertical flow','crates/textual/src/layouts/vertical.rs'),('horizontal flow','crates/textual/src/layouts/horizontal.rs'),('exact fractions','crates/textual/src/fraction.rs')],
  observe=['the region of every child'],
  tech='reference-model monitor (exact rational layout model) plus a translation-invariance monitor', note='300k arrangements per quick run, every placement compared with an independent exact model'),
 dict(id='P13', title='Grid layouts place every child in its own cells',
  statement="In a grid every child occupies the first free block of cells for its row and column span in reading order, no two children share a cell, and without an explicit row count no child is left out. Columns and rows have the sizes their track specifications, gutters, minimum column width or contents say, flexible tracks together filling exactly the space that is left, and each child fills or is sized within its block less its margins.",
  over=['inputs','configurations'], text='all grid sizes, track lists, gutters, spans, child sizes and regions',
  why='tests use a few regular grids; spans, uneven tracks, gutters and small regions are not combined',
  files=['crates/textual/src/layouts/grid.rs','crates/textual/src/fraction.rs'],
  mech=[('cell assignment','crates/textual/src/layouts/grid.rs'),('track sizing','crates/textual/src/layouts/grid.rs')],
  observe=['the region of every child and the reported cell occupancy'],
  tech='reference-model monitor (exact grid model) plus an overlap monitor', note='200k grids per quick run, every placement and occupancy table compared with an independent exact model'),
 dict(id='P14', title='Docks, layers, alignment, offsets and absolute children compose',
  statement="Docked children lie along their edge and take their space from the flow, once per edge; absolutely positioned children and other layers take no space from it; the flow as a whole is aligned in the space left; offsets move a child and nothing else. Every child is placed exactly once, layers are stacked in their declared order and the result is the same every time, with no region of negative size.",
  over=['inputs','configurations'], text='all combinations of docks, positions, offsets, layers and alignments with all layouts and regions',
  why='tests use one of these features at a time on large regions',
  files=['crates/textual/src/layouts/mod.rs'],
  mech=[('docking','crates/textual/src/layouts/mod.rs'),('alignment and offsets','crates/textual/src/layouts/mod.rs'),('layers','crates/textual/src/layouts/mod.rs')],
  observe=['the region and stacking order of every child'],
  tech='reference-model monitor (exact arrangement model)', note='200k arrangements per quick run compared with an independent exact model'),
 dict(id='P15', title='Command search finds, ranks and highlights every match',
  statement="A fuzzy search finds a candidate exactly when the query's characters occur in it in order, ignoring case unless told otherwise; its score is that of the best way to fit the query into the candidate (runs and word starts count more, whole and contiguous matches most), and exactly the matched characters are highlighted, whatever characters candidate and query contain. Command providers return exactly the matching (or discoverable) commands with their own action, text and help. Searching always ends in reasonable time.",
  over=['inputs'], text='every query, candidate, case sensitivity and set of commands',
  why='tests match a few short ASCII words; repeated characters, case mappings that change length, markup characters and long repetitive candidates are not sampled',
  files=['crates/textual/src/fuzzy.rs','crates/textual/src/command.rs'],
  mech=[('fuzzy matching and scoring','crates/textual/src/fuzzy.rs'),('command providers','crates/textual/src/command.rs')],
  observe=['score, matched positions, highlighted markup, hits and discovery hits'],
  tech='reference-model monitor (exhaustive enumeration of embeddings) with a CPU watchdog', note='600k query/candidate pairs and command sets per quick run compared with an exhaustive matcher'),
 dict(id='P16', title='Editing a text input never loses or corrupts text',
  statement="Every key typed into an input has exactly its effect on value and cursor: characters are inserted at the cursor, Backspace and Delete remove one whole user-perceived character, arrows, Home and End move by whole characters, and the cursor always stays inside the value. The input shows its value (or the placeholder when empty) unaltered, with the cursor drawn on the right cell exactly when focused; a disabled input ignores keys, and every visible change asks for a repaint.",
  over=['histories','inputs'], text='all histories of key presses and programmatic changes with any characters',
  why='tests type a few ASCII letters; joining characters, deletions inside clusters and long histories are not sampled',
  files=['crates/textual/src/widget/input.rs','crates/textual/src/grapheme.rs'],
  mech=[('editing','crates/textual/src/widget/input.rs'),('rendering of value and cursor','crates/textual/src/widget/input.rs')],
  observe=['value, cursor, focus and dirty flags and every rendered cell after every operation'],
  tech='history monitor against a reference editor', note='60k editing sessions per quick run, value, cursor and every cell compared after every operation'),
 dict(id='P18', title='Buttons and switches fire exactly once per press',
  statement="A button or switch fires exactly when it is clicked (the same press and release both on it, uninterrupted) or its key is pressed while focused, once per click, and never while disabled or loading, for a press begun elsewhere or released elsewhere, or for the wrong mouse button. Each firing delivers its own message or action, a switch alternates its value and shows it, and hover, active, focus and disabled flags always match the events seen.",
  over=['histories','schedules'], text='all histories of mouse, key and state-change events inside and outside the control',
  why='tests send one click; interrupted presses, state changes between press and release and stray events are not sampled',
  files=['crates/textual/src/widget/button.rs','crates/textual/src/widget/switch.rs','crates/textual/src/widget.rs'],
  mech=[('press state machine','crates/textual/src/widget/button.rs, crates/textual/src/widget/switch.rs')],
  observe=['messages, pending actions, handler calls, state flags and rendered value after every event'],
  tech='online trace monitor: event stream against a reference state machine (exactly-once firing)', note='120k event histories per quick run; every message and flag compared after every event'),
 dict(id='P17', title='An option list selects the option the user points at',
  statement="Arrow keys move the selection to the next enabled option in that direction and nowhere else; a click on an option's text selects and reports exactly that option, wherever borders, padding, wrapped or scrolled options put it, a click beside it selects that option or none, and disabled options and lists are never selected. After any change of the options the selection lies on an existing option, on an enabled one if there is any.",
  over=['histories','inputs'], text='all option sets, stylings, sizes and histories of keys, clicks, wheel and item changes',
  why='tests use three one-line options without chrome; multi-line options, padding, scrolling and item replacement are not sampled',
  files=['crates/textual/src/widget/option_list.rs','crates/textual/src/containers/container.rs'],
  mech=[('selection','crates/textual/src/widget/option_list.rs'),('click mapping','crates/textual/src/widget/option_list.rs')],
  observe=['selected index and text, reported clicks and the rendered rows after every operation'],
  tech='history monitor against a reference selection; clicks judged by what the rendered frame shows', note='15k histories per quick run, clicks aimed at rendered rows'),
 dict(id='P19', title='Mouse events reach the widget drawn under the pointer',
  statement="A mouse event is delivered to exactly the one widget whose cells are shown under the pointer, with the region it was drawn in, and its message comes back with that widget as sender; where no widget is shown, none receives it. This holds in every nesting of containers, for scrolled, docked, layered, overlapping, offset, padded or partly hidden widgets, after resizes and display changes; after the pointer moves, exactly the widget under it is in hover state. Containers may consume wheel events.",
  over=['inputs','histories'], text='all widget trees, stylesheets, screen sizes and mouse event histories',
  why='tests click a widget in a single unstyled container; scrolling, overlap and nested chrome combine in ways they do not sample',
  files=['crates/textual/src/containers.rs','crates/textual/src/containers/container.rs','crates/textual/src/containers/grid.rs','crates/textual/src/containers/item_grid.rs','crates/textual/src/containers/scrollable.rs','crates/textual/src/widget/screen.rs','crates/textual/src/widget/app_widget.rs'],
  mech=[('hit testing','crates/textual/src/containers.rs, crates/textual/src/containers/*.rs'),('screen dispatch','crates/textual/src/widget/screen.rs')],
  observe=['the glyph shown at the pointer, each leaf\'s drawn region, received events, messages, senders and hover flags'],
  tech='recording leaf widgets in real container trees; offline check of the event log against the rendered frame', note='12k trees per quick run with about 8 events each'),
 dict(id='P20', title='Scrolling shows all content and never leaves it',
  statement="A scrolling container always shows exactly the window of its content at its scroll offset, beside its scrollbars, and nothing outside it; the offset stays within the content whatever is scrolled, resized, shown or hidden. Wheel, keys, track clicks and thumb drags move the window only in their direction, never past unseen content by more than a window, and both ends of the content can be reached. The thumb is one piece, at least a cell long, proportional to the window, at the track's start and end exactly when the content is, and never moves backwards.",
  over=['histories','inputs'], text='all content sizes, overflow settings, chrome, container kinds and operation histories',
  why='tests check offsets of the scroll state alone; layout, clamping and drawing of real containers over histories are not sampled',
  files=['crates/textual/src/scroll.rs','crates/textual/src/scrollbar.rs','crates/textual/src/containers/scrollable.rs','crates/textual/src/containers/container.rs','crates/textual/src/widget/screen.rs'],
  mech=[('offset clamping','crates/textual/src/scroll.rs'),('scroll layout','crates/textual/src/containers/scrollable.rs, crates/textual/src/containers/container.rs, crates/textual/src/widget/screen.rs'),('thumb drawing','crates/textual/src/scrollbar.rs')],
  observe=['every cell of every frame, the offset it shows, thumb position decoded in eighths of a cell'],
  tech='frame monitor: every rendered frame of an operation history compared with the content window; decoded thumb geometry', note='10k cases per quick run, every cell of every frame compared'),
 dict(id='P21', title='Focus, key dispatch and bubbling follow the widgets shown',
  statement="The focus ring is the focusable widgets in tree order, without those that are hidden or disabled or inside something hidden. Moving the focus forward or backward goes to the next or previous widget of the ring, around its ends, also after widgets were hidden, shown, enabled or disabled in between; setting it by index or id focuses exactly that widget or changes nothing. Exactly one widget then has the focus. A key reaches the focused widget only, and its message passes each of its ancestors once, from the nearest up, each transformation seen by the next, until one stops it; it then arrives at the application with its sender.",
  over=['histories','inputs'], text='all widget trees and histories of focus moves, keys and visibility or state changes',
  why='tests use flat trees that do not change; hidden subtrees, stale focus paths and nested handlers appear only over histories',
  files=['crates/textual/src/tree.rs','crates/textual/src/containers.rs','crates/textual/src/containers/container.rs','crates/textual/src/containers/grid.rs','crates/textual/src/containers/item_grid.rs','crates/textual/src/containers/scrollable.rs','crates/textual/src/widget/screen.rs','crates/textual/src/widget/app_widget.rs','crates/textual/src/message.rs'],
  mech=[('focus path','crates/textual/src/tree.rs'),('focus traversal of containers','crates/textual/src/containers.rs, crates/textual/src/containers/*.rs, crates/textual/src/widget/screen.rs'),('bubbling','crates/textual/src/tree.rs, crates/textual/src/message.rs')],
  observe=['focus flag of every widget, focus path and index, keys and messages logged by recording widgets'],
  tech='history monitor: recording leaves and containers in real trees, each step checked against a model of the tree', note='40k histories per quick run, every widget inspected after every step'),
 dict(id='P22', title='Queries find and change exactly the widgets they describe',
  statement="A query by type, id or both finds exactly the widgets of the tree that match, in depth-first order, at any depth; first, last, count, for-each, filtered, typed and one-widget queries agree with that list. Bulk class and state changes apply to every matching widget that has classes or state, and to no other.",
  over=['inputs','histories'], text='all widget trees, selectors, filters and histories of bulk changes',
  why='tests query small trees with unique types and ids; nested matches, repeated ids and filters that split a match are not sampled',
  files=['crates/textual/src/tree.rs','crates/textual/src/macros.rs','crates/textual/src/widget.rs','crates/textual/src/containers/vertical_scroll.rs','crates/textual/src/containers/horizontal_scroll.rs'],
  mech=[('selector matching','crates/textual/src/tree.rs'),('tree search','crates/textual/src/tree.rs'),('class API','crates/textual/src/macros.rs, crates/textual/src/widget/*.rs')],
  observe=['results of every query and the id, type, classes and state of every widget before and after'],
  tech='model-based monitor: every query result and the whole tree compared with a depth-first model', note='200k trees per quick run'),
 dict(id='P23', title="A running application's screen shows its current state",
  statement="While an application runs, every key, mouse event, window resize, posted message and timer message is handled exactly once and in order: keys go to the focused widget, bubble to its ancestors, and then reach the application; what handlers changed (text, classes, enabled state, focus, a recomposed tree) is on the screen when the next event is waited for, whatever happened before. The screen is then what a full restyle and redraw of the current widgets at the current size would show.",
  over=['inputs','histories','schedules'], text='all applications, histories of keys, mouse events, resizes, messages and timers, and arrival orders',
  why='tests never run the event loop: the suite renders widgets without a terminal, so order, redraw, resize and recomposition bugs in the loop are invisible to it',
  files=['crates/textual/src/lib.rs','crates/textual/src/context.rs','crates/textual/src/canvas.rs','crates/textual/src/tree.rs'],
  mech=[('event loop','crates/textual/src/lib.rs event_loop_async'),('dirty restyle','crates/textual/src/style_resolver.rs'),('diffed output','crates/textual/src/canvas.rs flush')],
  observe=['terminal output of the real process on a pseudo-terminal, interpreted into a screen, and the messages and keys its handlers saw, at each synchronisation point'],
  tech='end-to-end monitor: real processes on pseudo-terminals, their screens compared with a step-by-step mirror of the same application', note='1800 applications (about 35k frames) per quick run; the command palette and tooltips are not opened here'),
 dict(id='P24', title='The terminal is given back as it was, however an application ends',
  statement="When run() or run_async() ends - normally, with an error, by a panic in any application or widget callback, or because its future was dropped - the terminal's line settings, screen, cursor and mouse modes are those from before the call, and nothing is printed after leaving the alternate screen. The call returns Ok when the application asked to quit (by key, message, action or while mounting), the documented error for an invalid stylesheet or a current-thread runtime (without touching the terminal), and lets a panic through; a second run starts afresh.",
  over=['inputs','faults','histories'], text='all applications, ways of ending and points at which they end',
  why='tests have no terminal; a mode left set after a panic or a dropped future only shows on a real one',
  files=['crates/textual/src/lib.rs','crates/textual/src/error.rs'],
  mech=[('terminal setup and restoration','crates/textual/src/lib.rs run_inner'),('runtime selection','crates/textual/src/lib.rs run'),('quit flag','crates/textual/src/lib.rs request_quit, should_quit, reset_quit')],
  observe=['private modes set and reset, line settings of the pseudo-terminal, output after the last mode switch, result of the call'],
  tech='end-to-end monitor with fault injection: real processes on pseudo-terminals ended in 20 ways, modes and line settings checked as the call returns', note='1200 endings per quick run'),
 dict(id='P25', title='Posted, delayed and repeated messages arrive exactly when and as often as asked',
  statement="A posted message is delivered at once, in order. A timer's message is delivered exactly once, never before its delay has passed and as soon as it has. An interval sends one message per elapsed period, the first after one full period, numbered without gap or repetition even when several periods pass at once, until its handle is cancelled or dropped (even before its task first ran) or the receiver is gone; after that it sends nothing and its task ends, releasing what its message function holds. Every message carries the sender named by the context it was asked from (application, mount or event context).",
  over=['inputs','histories','schedules'], text='all histories of posts, timers, intervals, cancellations and passing time, on single- and multi-thread runtimes',
  why='tests start one timer or interval and wait; simultaneous deadlines, cancellation at the instant of a tick, jumps over several periods and leaked tasks are schedules they do not sample',
  files=['crates/textual/src/context.rs','crates/textual/src/message.rs'],
  mech=[('timers and intervals','crates/textual/src/context.rs set_timer, set_interval'),('cancellation','crates/textual/src/context.rs IntervalHandle'),('sender information','crates/textual/src/message.rs')],
  observe=['every message with its arrival time and sender, reference counts of what interval closures hold'],
  tech='online trace checker over a message channel on a virtual clock, and a real-time multi-thread stress run', note='30k histories per quick run (about 3M messages)'),
 dict(id='P26', title='Drawing is total, repeatable, confined and independent of history',
  statement="Whatever the widgets, the stylesheet and the size of the terminal, down to zero columns or rows, drawing a widget tree returns without panicking; drawing it again gives the same cells; the cells are those a freshly built and styled tree of the same widgets gives at that size and stylesheet, however often and at whatever sizes and stylesheets the tree was drawn before; and no cell outside the region a tree is drawn in changes. A screen carries exactly the responsive classes its breakpoints name for its current size, and a resize alone restyles what depends on them.",
  over=['inputs','configurations','histories'], text='all trees of library widgets, all stylesheets, all sizes including degenerate ones, all histories of restyling, resizing and redrawing',
  why='tests draw small fixed trees at one comfortable size; degenerate sizes, oversized padding and borders, leftovers of an earlier size or stylesheet are combinations they do not sample',
  files=['crates/textual/src/widget.rs','crates/textual/src/render_cache.rs','crates/textual/src/containers.rs','crates/textual/src/containers/container.rs','crates/textual/src/containers/scrollable.rs','crates/textual/src/widget/screen.rs','crates/textual/src/widget/static_widget.rs','crates/textual/src/border_render.rs'],
  mech=[('widget drawing','crates/textual/src/widget'),('container drawing and clipping','crates/textual/src/containers'),('borders and padding','crates/textual/src/render_cache.rs'),('restyling','crates/textual/src/style_resolver.rs')],
  observe=['every cell of the canvas inside and outside the region, panics and CPU time'],
  tech='differential and metamorphic monitor over the drawn cells, with the arithmetic sanitizer and a panic monitor', note='8k trees per quick run, each drawn up to fifteen times'),
 dict(id='P27', title='A box is drawn as its style says',
  statement="Every cell of a Static, Label or container is what its computed style says. Each edge whose border kind is visible takes one row or column in the glyphs of its own kind and in its own colour (else the text colour), on the background of the box or of its parent as that kind asks; corners appear where both side borders exist, with the kind and colour of the top or bottom edge; hkey has no sides, vkey no top or bottom. A border title stands in the top border and a subtitle in the bottom one (in the first or last inner row when only side borders exist), aligned left, centred or right, at least one border cell from either end, set off by blanks between corners, shortened with an ellipsis when too long, in its own colour, background and text style (else the edge's colour on the box's background). Inside lie the padding and the wrapped text, aligned by content-align and text-align, then the hatch on blank inner cells, then the tint over everything; opacity blends toward the parent; an outline lies over the outermost cells. Two boxes that differ in any of these never share what is drawn. Moving the pointer over or clicking a link hovers or triggers exactly the link drawn under the pointer.",
  over=['inputs','configurations'], text='all border kinds per edge, colours, labels, paddings, texts, sizes down to one cell, and pointer positions',
  why='tests draw a few uniform borders in comfortable sizes; mixed edges, translucent colours, labels that do not fit and links below labels are combinations they do not sample',
  files=['crates/textual/src/render_cache.rs','crates/textual/src/border_box.rs','crates/textual/src/border_chars.rs','crates/textual/src/border_render.rs','crates/textual/src/widget/static_widget.rs','crates/textual/src/containers/container.rs','crates/textual/src/containers.rs','crates/textual/src/strip.rs'],
  mech=[('border glyphs and zones','crates/textual/src/border_chars.rs'),('border cache','crates/textual/src/border_box.rs get_box'),('rows of a box','crates/textual/src/render_cache.rs render_line'),('labels','crates/textual/src/border_render.rs'),('text and links','crates/textual/src/widget/static_widget.rs')],
  observe=['every cell of the canvas: symbol, colours, attributes; hovered link and pending action per pointer position'],
  tech='reference-model monitor over the drawn cells and the pointer', note='80k boxes per quick run, each drawn at up to four sizes'),
 dict(id='P28', title='The command palette lists what its providers answer and runs the command chosen',
  statement="While the palette is open it lists, best score first and in order of arrival among equals, exactly the commands its current providers answered for the text now in its input (discovery when that is blank), each with its help; until they have answered it may still show the previous list, never the results of an abandoned search. The first command is highlighted, arrow keys move the highlight one row, and Enter, submit or a click runs the highlighted or clicked command: its action is raised exactly once and the palette closes (with run_on_select off the command is first put in the input, and the next submit runs it). Escape, close or a click outside closes without an action. The spinner shows while, and only while, a search has gone on for half a second; 'No matches found' appears half a second after a search for text found nothing. A closed palette draws nothing, takes neither keys nor mouse, and hands back the focus to restore once. Opened and Closed events alternate, and the last highlight event names the row drawn highlighted. Each provider is asked exactly once per search, only between its startup and its shutdown, and is shut down exactly once for every time it was started, also when it is replaced while the palette is open.",
  over=['inputs','histories','schedules'], text='all histories of keys, clicks, opening, closing and replaced providers, all answer, startup and shutdown delays, single- and multi-thread runtimes',
  why='tests open a palette with one immediate provider; answers that overlap a new query, a close or a timer are schedules they do not sample',
  files=['crates/textual/src/widget/command_palette.rs','crates/textual/src/command.rs','crates/textual/src/widget/option_list.rs'],
  mech=[('search, generations and timers','crates/textual/src/widget/command_palette.rs start_search, apply_update'),('selection','crates/textual/src/widget/command_palette.rs activate_selected, move_selection'),('provider lifecycle','crates/textual/src/widget/command_palette.rs startup_providers, shutdown_providers')],
  observe=['drawn rows, highlight, spinner and input; events, pending action and focus to restore after every step; every call each provider received'],
  tech='online trace checker on a virtual clock over the drawn palette and the logs of monitoring providers, and a multi-thread stress run', note='4k histories per quick run (about 80k frames, 19k provider sessions)'),
 dict(id='P29', title='Keylines join where boxes meet and follow the children',
  statement="A container with a keyline draws a frame along the edge of its content area and, in a vertical (horizontal) one, a line across it in the row below (the column after) each child that ends inside it; a grid draws the frame and a line between every two neighbouring grid cells that belong to different children (or one of them to none), never through a child that spans several cells. Nothing else changes: every other cell looks as without the lines, and nothing is drawn outside the content area. Each cell of a line shows the box-drawing character whose arms point exactly where lines leave it, in the weight of each line (thin, heavy or double; the heavier wins where two meet), in the keyline's colour on the background already there. When the content is scrolled, the lines scroll along with the children they separate. The grid's lines follow its tracks and gutters whatever their sizes.",
  over=['inputs','histories'], text='all sets of boxes, all combinations of line weights, all grids with any tracks, gutters and spans, all scroll positions and sizes',
  why='tests draw a handful of boxes and grids; the junction glyphs, the spans and the tracks combine in thousands of ways',
  files=['crates/textual/src/box_drawing.rs','crates/textual/src/keyline_canvas.rs','crates/textual/src/containers/container.rs','crates/textual/src/containers/grid.rs'],
  mech=[('glyphs by arm','crates/textual/src/box_drawing.rs get_box_char, combine_quads'),('line canvas and spans','crates/textual/src/keyline_canvas.rs'),('lines around children','crates/textual/src/containers/container.rs render_keylines'),('lines along tracks','crates/textual/src/containers/grid.rs')],
  observe=['every cell of the canvas after rendering the same container with and without a keyline'],
  tech='cell-by-cell monitor of the rendered canvas against an independent line model built from Unicode character names', note='60k drawings per quick run; the 256 arm combinations are exhaustive'),
 dict(id='P30', title='Text widgets ask for exactly the room their text needs and show all of it',
  statement="A Static, Label or Button of automatic size asks for a width of its longest line, its line padding on both sides, its padding and its borders, and a height of one row per line and its padding and borders; sizes set in the stylesheet take precedence (plus padding and borders under content-box, filling what there is for flexible units). Asked how high it is at a given width, it says the number of rows its text takes there, wrapped or not as its style says, plus padding and borders; drawn in that room every row of text can be read. Below one another in containers of automatic height (nested, padded, bordered), all of these widgets and placeholders are shown completely and in order, however their texts wrap. A placeholder shows its label, '#id' or 'Placeholder', its size, or filler text, each click going to the next of the three, wrapped and centred on its colour of a cycle of twelve, and asks for exactly that many rows. A ruler shows a dot per cell and a bullet in every fifth. A tooltip is drawn as its text wrapped to its width, stays entirely on the screen when it fits there, and lies below the pointer, or above it when there is no room below. A header shows its icon on the left and its title and subtitle centred in the middle, ending in an ellipsis where they do not fit, and reports a click on the icon exactly for a press and release on it.",
  over=['inputs','histories'], text='all texts, widths, paddings, borders, wrapping modes and sizes; all sequences of clicks and text changes',
  why='tests measure a few short labels; wrapping, wide characters, padding, borders and box sizing interact for every width',
  files=['crates/textual/src/widget/static_widget.rs','crates/textual/src/widget/label.rs','crates/textual/src/widget/button.rs','crates/textual/src/widget/placeholder.rs','crates/textual/src/widget/ruler.rs','crates/textual/src/widget/tooltip.rs','crates/textual/src/widget/header.rs','crates/textual/src/containers/container.rs'],
  mech=[('size and height asked for','crates/textual/src/widget/static_widget.rs desired_size, intrinsic_height_for_width; label.rs; button.rs; placeholder.rs'),('auto-height containers','crates/textual/src/containers/container.rs intrinsic_height_for_width'),('tooltip placement','crates/textual/src/widget/tooltip.rs calculate_position'),('header','crates/textual/src/widget/header.rs')],
  observe=['desired_size and intrinsic_height_for_width against the text read back from every cell of the canvas'],
  tech='cross-check of the sizes widgets ask for and the cells they draw against an independent text model', note='60k widgets per quick run'),
]
NOT_APPLICABLE = []
