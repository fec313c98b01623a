#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements are easy to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")

S1 = ["src/ast1/document.rs", "src/ast1/command.rs", "src/ast1/scope.rs", "src/ast1/scopevariant.rs", "src/ast1/chunk.rs", "src/ast1/chunkvariant.rs"]
S2 = ["src/ast2/document.rs", "src/ast2/environment.rs", "src/ast2/command.rs", "src/ast2/scope.rs", "src/ast2/chunk.rs"]
S3 = ["src/ast3/document.rs", "src/ast3/mathsblock.rs", "src/ast3/paragraph.rs", "src/ast3/environment.rs", "src/ast3/command.rs", "src/ast3/scope.rs", "src/ast3/chunk.rs"]

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Stage-1 parsing and printing is lossless",
 """For every well-formed text, parsing it with stage 1 and printing the resulting tree yields exactly that text, character for character.
 That includes the kind and nesting of every bracket, the whitespace between a command and its arguments, escaped characters and a backslash ending the input.""",
 ["inputs"], "every input text the stage-1 grammar admits, at any nesting depth",
 """One multi-line document is compared with its print; the promise is over all texts, and each combination of bracket kind, nesting, escape and whitespace
 takes a different path through the scanner.""",
 S1, [("character scanner", "src/ast1/document.rs FromStr"), ("Display of every node", "src/ast1/*.rs")],
 ["ast1::Document::from_str", "ast1::Document::to_string"],
 [("buffer", "construct being read: text, bracketed group or command with arguments", "src/ast1/document.rs")])

prop("C02", "Stage-2 parsing and printing is lossless",
 """For every text whose groups and environments are well-formed, parsing it with stage 2 and printing the resulting tree yields exactly that text, character for character.
 That includes each environment's label, its arguments with the whitespace before them, the whitespace before the label in both its opening and its closing command, and its whole content.""",
 ["inputs"], "every text whose environments are balanced, with any header layout and nesting",
 "One document with two environments without arguments is compared; headers with arguments, whitespace and nesting are not reached.",
 S2, [("environment folding", "src/ast2/document.rs TryFrom<ast1::Document>"), ("Display", "src/ast2/environment.rs")],
 ["ast2::Document::from_str", "ast2::Document::to_string"])

prop("C03", "Stage-3 parsing and printing is lossless",
 """For every text that is well-formed for stage 3, parsing it with stage 3 and printing the resulting tree yields exactly that text, character for character.
 That includes all four maths delimiters with any mixture of text, commands, groups and environments inside, paragraph breaks, the layout of the document environment's opening and closing commands,
 and texts with no document environment or with more than one.""",
 ["inputs"], "every stage-3 well-formed text: all maths contents, all layouts of preamble, body and trailing part",
 "A single document is compared, with one maths block that contains only text; mixed maths content, trailing parts and fragments are never printed.",
 S3, [("maths grouping", "src/ast3/mathsblock.rs from_chunks"), ("paragraph splitting", "src/ast3/paragraph.rs"), ("sections", "src/ast3/document.rs")],
 ["ast3::Document::from_str", "ast3::Document::to_string"])

prop("C04", "Converting a parsed tree down a stage restores the lower stage's tree",
 """For every text stage 2 accepts, converting its stage-2 tree to stage 1 gives a tree equal to the one stage 1 parses from the same text; for every text stage 3 accepts,
 converting its stage-3 tree to stage 2 gives a tree equal to the one stage 2 parses from the same text. Equality includes line numbers and the fact that neighbouring text is one chunk.""",
 ["inputs"], "every text accepted by the upper stage",
 "Only one document is converted from stage 2 to stage 1, and none from stage 3 to stage 2.",
 ["src/ast2/chunk.rs", "src/ast2/document.rs", "src/ast2/scope.rs", "src/ast2/command.rs", "src/ast2/environment.rs", "src/ast3/chunk.rs", "src/ast3/mathsblock.rs", "src/ast1/document.rs", "src/ast1/scope.rs", "src/ast1/command.rs"],
 [("downward conversion", "src/ast1/document.rs From<ast2::Document>, src/ast2/document.rs From<ast3::Document>"), ("flattening", "src/ast2/chunk.rs, src/ast3/chunk.rs, src/ast3/mathsblock.rs into_chunks")],
 ["ast1::Document::from(ast2::Document)", "ast2::Document::from(ast3::Document)"])

prop("C05", "Stage 1 divides text into text, groups and commands as the grammar says",
 """Every well-formed text is divided in order into non-empty text chunks (never two in a row), bracketed groups and commands: a backslash and a letter start a command named by the longest run of ASCII letters, `*` and `@`,
 whose arguments are the bracketed groups that follow it with at most whitespace (kept with the argument) in between; a backslash and any other character form a command of that one character without arguments; a backslash ending the input is a command with an empty name.
 A group or argument reaches to the matching closing bracket of its own kind, escaped brackets neither open nor close anything, and its content is divided by the same rules.
 Whitespace not followed by an argument, and all other characters, belong to text.""",
 ["inputs"], "every well-formed text; every Unicode character in every lexical position",
 "Two documents are compared with expected trees; adjacency of escapes, brackets, whitespace and names is combinatorial.",
 S1, [("character scanner", "src/ast1/document.rs FromStr"), ("bracket kinds", "src/ast1/scopevariant.rs")],
 ["ast1::Document::from_str, chunks()"])

prop("C06", "Stage 2 pairs environment begins and ends and keeps everything else",
 """Every well-formed text is accepted, and in it, at every level, each `begin` command is paired with the `end` command of the same label that balances it, and the pair becomes one environment holding the label, the remaining arguments of the `begin`, and exactly the chunks between the two, folded by the same rule;
 text, groups and other commands stay as they are, in order, with groups and arguments folded by the same rule inside.""",
 ["inputs"], "every accepted text: all nestings and sequences of environments, groups and commands",
 "One document with one nested pair is compared; same-label nesting, environments inside groups and arguments, and argument lists are not.",
 S2, [("stack of open labels", "src/ast2/document.rs TryFrom<ast1::Document>")], ["ast2::Document::from_str, chunks()"],
 [("buffer_stack", "labels of the environments open at this level", "src/ast2/document.rs")])

prop("C07", "Stage 3 recognises exactly the maths blocks and their content",
 """Every well-formed text is accepted, and in it, at every level and in order, `$...$` and `\\(...\\)` become inline maths blocks and `$$...$$` and `\\[...\\]` become display maths blocks, with the kind of delimiter recorded, nested bracket delimiters of the same kind balanced, and exactly what stands between the delimiters as content, processed by the same rules;
 an escaped dollar is never a delimiter, and dollars inside groups, arguments and environments are independent of those outside.""",
 ["inputs"], "every accepted text: all sequences and nestings of delimiters, text, commands, groups and environments",
 "One display block holding text only is compared; no inline maths, bracket maths, command in maths or nesting is tested.",
 ["src/ast3/mathsblock.rs", "src/ast3/scope.rs", "src/ast3/environment.rs", "src/ast3/command.rs"],
 [("maths mode machine", "src/ast3/mathsblock.rs from_chunks")], ["ast3::Document::from_str, chunks"],
 [("mode", "which maths delimiter is open", "src/ast3/mathsblock.rs"), ("depth", "nesting of the open bracket delimiter", "src/ast3/mathsblock.rs")])

prop("C08", "Paragraph breaks are exactly the blank-line whitespace runs",
 """In stage 3, which accepts every well-formed text, within every stretch of text between non-text chunks, at every level and inside maths, each stretch of whitespace that starts at a line break, contains at least two line breaks and extends as far as whitespace goes is one paragraph-break chunk holding exactly that whitespace;
 everything else in the stretch is in non-empty text chunks, in order, and no text chunk contains a blank line.""",
 ["inputs"], "every text run: all arrangements of line breaks, other whitespace and characters around chunks",
 "Three fixed runs with exactly two line breaks are tested; three or more, mixed whitespace, and leading or trailing breaks are not.",
 ["src/ast3/paragraph.rs", "src/ast3/mathsblock.rs", "src/ast3/scope.rs", "src/ast3/environment.rs", "src/ast3/document.rs"],
 [("newline counting scan", "src/ast3/paragraph.rs from_chunks")], ["ast3::Document::from_str, chunks"])

prop("C09", "Stage 3 splits the document and reads its class and options",
 """The first top-level `document` environment of a well-formed text, all of which are accepted, becomes the body with its arguments and header whitespace; what precedes it is the preamble and what follows it the trailing part, and if there is none everything is preamble.
 The document class is the printed content of the curly argument of the preamble's `documentclass` command.
 Each other argument of such a command contributes one option per comma-separated piece, in order, divided into leading whitespace, key, and (if it has `=`) whitespace before and after the first `=` and value, and trailing whitespace, so that the parts put together again give the piece; an all-whitespace piece has an empty key and no value.""",
 ["inputs"], "every accepted text; every option list",
 "One document with a class and no options is tested; options, values, trailing parts and documents without a body are not.",
 ["src/ast3/document.rs"], [("section cursor and option reader", "src/ast3/document.rs TryFrom<ast2::Document>")], ["ast3::Document::decompose"])

prop("C10", "Every chunk's line number is the line it starts on",
 """In every tree parsed at any stage, each chunk carries the line its first character is on, counted from 1 at the start of the content of the construct that directly contains it (the whole text, a group or argument, an environment's content, a maths block, or the body or trailing part of a document);
 an environment starts at its `begin` command and a maths block at its opening delimiter.""",
 ["inputs"], "every accepted text with line breaks at any place: inside names, headers, arguments, maths, whitespace, comments",
 "Line numbers are asserted in three documents where no header spans lines and no comment, escaped line break or multi-line maths precedes a chunk.",
 ["src/ast1/document.rs", "src/ast2/document.rs", "src/ast3/mathsblock.rs", "src/ast3/paragraph.rs", "src/ast3/document.rs"],
 [("line counters", "src/ast1/document.rs, src/ast3/paragraph.rs, src/ast3/mathsblock.rs"), ("rebasing", "src/ast2/document.rs, src/ast3/document.rs")],
 ["Chunk::line_no at stages 1, 2 and 3"])

prop("C11", "The line count of every node equals the lines of its printed form",
 """For every document, chunk, command, group, environment and maths block at every stage, parsed or built by hand, the reported number of lines is one more than the number of line breaks in its printed form.""",
 ["inputs", "programs"], "every parsed tree node and every hand-built node",
 "Two documents' totals are tested; stage-3 documents and nodes with multi-line headers or arguments are not.",
 ["src/ast1/document.rs", "src/ast1/command.rs", "src/ast1/scope.rs", "src/ast2/document.rs", "src/ast2/environment.rs", "src/ast2/command.rs", "src/ast3/document.rs", "src/ast3/environment.rs", "src/ast3/mathsblock.rs", "src/ast3/chunkvariant.rs"],
 [("structural line counting", "Lines implementations in src/ast1, src/ast2, src/ast3")], ["Lines::lines against to_string"])

prop("C12", "Text is rejected exactly when malformed, naming a fault it really has",
 """Stage 1 rejects a text exactly when a group or argument is never closed or a closing bracket directly follows a command or its last argument.
 Stage 2 additionally rejects exactly when, at some level, a `begin` or `end` has no curly first argument, an `end` does not match the innermost open `begin` or has further arguments, or a `begin` is never ended; stage 3 additionally exactly when maths delimiters are unbalanced at some level, or the preamble's document class is given again after it was set, or with two names.
 The error names the kind of such a fault, with the bracket kind or label concerned.""",
 ["inputs"], "every text, well-formed or not",
 "Seven malformed documents are tested; no test shows that well-formed texts in general are accepted.",
 ["src/ast1/document.rs", "src/ast2/document.rs", "src/ast3/mathsblock.rs", "src/ast3/document.rs", "src/error.rs"],
 [("error returns", "src/ast1/document.rs, src/ast2/document.rs, src/ast3/*.rs")], ["from_str result and ErrorType"])

prop("C13", "Errors report the line of the input where the fault is",
 """Every parse error carries the line, counted from 1 at the start of the input, of the fault it names, however deeply nested it is and whatever precedes it: the line of an unexpected closing bracket or of a faulty `begin`, `end`, maths-closing or document-class command,
 the line where a never-closed group, environment or maths block opens, and the line of the command whose argument is never closed.""",
 ["inputs"], "every malformed text: each fault inside each nesting of groups, arguments on later lines, environments and maths",
 "Six errors' lines are tested, all detected at the outermost level or in plain groups.",
 ["src/ast1/document.rs", "src/ast2/document.rs", "src/ast2/command.rs", "src/ast3/mathsblock.rs", "src/ast3/document.rs", "src/ast3/environment.rs", "src/ast3/command.rs", "src/ast3/scope.rs"],
 [("line offsets added while errors propagate", "src/ast1/document.rs flush!, src/ast2/document.rs map_e!")], ["Error::line"])

prop("C14", "Parsing and every operation on its result is total",
 """For every text, parsing with each stage terminates with a tree or an error and never panics, overflows or hangs; and on every parsed tree, printing, line counting, validation and conversion to the stage below do the same.""",
 ["inputs"], "every text, at all three implemented stages",
 "Twenty fixed inputs are parsed; subtraction of line numbers and unwraps lie on paths none of them reaches.",
 S1 + S2 + S3, [("unsigned line arithmetic, unwrap and unreachable! calls", "src/ast1/document.rs, src/ast2/chunk.rs, src/ast2/document.rs, src/ast3/mathsblock.rs")],
 ["from_str, to_string, lines, validate, From/TryFrom between stages"])

prop("C15", "Every parsed document passes its own validation",
 """Whatever text a stage accepts, the document it returns passes that stage's validation, as do its chunks one by one; so a parsed document can be edited with the checked operations.""",
 ["inputs"], "every accepted text at stages 1 to 3",
 "No test validates a parsed document; it needs parser and validator to agree on every text.",
 ["src/ast1/document.rs", "src/ast1/chunkvariant.rs", "src/ast1/command.rs", "src/ast2/document.rs", "src/ast2/environment.rs", "src/ast3/document.rs", "src/ast3/chunkvariant.rs", "src/traits/validate.rs"],
 [("Validate", "src/ast1, src/ast2, src/ast3")], ["Validate::validate on parsed documents"])

prop("C16", "Building stage-1 and stage-2 documents by pushes keeps them consistent",
 """After any sequence of pushes, a stage-1 or stage-2 document holds the pushed content in order, text pushed after text joining the chunk before it and every other push adding one chunk that keeps the line it was given or else carries the line on which the content before it ends, so that the print is the concatenation of the pushed prints.
 A checked push fails, leaving the document unchanged, exactly when the content is invalid or a line given with it is not the line where the document ends (the error gives both); a document built by checked pushes validates.""",
 ["histories"], "every sequence of checked and unchecked pushes of text, commands, groups and environments, with every line number",
 "Two fixed sequences of four pushes and two rejected pushes are tested.",
 ["src/ast1/document.rs", "src/ast2/document.rs"], [("push, push_chunk and their unchecked forms", "src/ast1/document.rs, src/ast2/document.rs")],
 ["Document::push*, chunks, validate, to_string"], [("chunks", "the document so far", "src/ast1/document.rs, src/ast2/document.rs")])

prop("C17", "Building stage-3 documents by pushes keeps each section consistent",
 """After any sequence of pushes to the preamble, body and trailing part of a stage-3 document, each section holds what was pushed to it, in order, text pushed after text joining it and other chunks carrying their given line or else the line where that section's content before it ends, and no push to one section changes another; the print is preamble, opening command, body, closing command, trailing part (a text parsed without a document environment has neither command until something is pushed to its body or trailing part).
 A checked push fails, leaving the document unchanged, exactly when the content is invalid, would complete a blank line inside a text chunk, or is given with a wrong line; a document built by checked pushes validates.""",
 ["histories"], "every interleaving of checked and unchecked pushes to the three sections",
 "No test pushes to a stage-3 document.",
 ["src/ast3/document.rs"], [("section push functions", "src/ast3/document.rs")], ["Document::push_*, chunks_*, validate, to_string"],
 [("preamable, body, trailing", "the three sections", "src/ast3/document.rs")])

prop("C18", "Checked constructors accept exactly valid nodes",
 """At every stage, constructing or validating a node fails exactly when something in it, at any depth, is invalid, and the error names such a fault: text containing a backslash, percent sign or bracket (or, at stage 3, a dollar or a blank line); a command name of several bytes, or an environment label, containing one of the first three; from stage 2 on a command named `begin` or `end`;
 a paragraph break with a non-whitespace character or fewer than two line breaks; or a document whose chunks' line numbers do not follow from the lines before them.
 Text accepted by a stage's validation, if not empty, is read back by that stage as exactly that one text chunk.""",
 ["programs", "inputs"], "every node that can be built, at any depth; every text",
 "Five invalid values are tested.",
 ["src/ast1/chunkvariant.rs", "src/ast1/command.rs", "src/ast1/scope.rs", "src/ast1/document.rs", "src/ast2/chunkvariant.rs", "src/ast2/command.rs", "src/ast2/environment.rs", "src/ast2/scope.rs", "src/ast3/chunkvariant.rs", "src/ast3/command.rs", "src/ast3/environment.rs", "src/ast3/mathsblock.rs", "src/ast3/document.rs"],
 [("Validate", "src/ast1, src/ast2, src/ast3")], ["the `new` constructors and Validate::validate"])

prop("C19", "Comments never influence the parsed structure",
 """At every stage, a text gives the same result - tree or error, line numbers included - as the text in which everything from each unescaped percent sign up to the end of its line is deleted; nothing in a comment, not even backslashes, brackets, dollars or further percent signs, matters.
 An escaped percent sign never starts a comment.""",
 ["inputs"], "every text with any comment content at any position",
 "No test contains a comment.",
 ["src/ast1/document.rs"], [("comment flag", "src/ast1/document.rs FromStr")], ["from_str at stages 1 to 3"],
 [("comment", "whether the scanner is inside a comment", "src/ast1/document.rs")])

prop("C20", "What a piece of text parses to does not depend on where it stands",
 """A comment-free text that parses to a tree gives the same tree, with the same relative line numbers, when it is the content of a group or argument of any bracket kind that is balanced in it, of an environment, or of bracket maths, and a fault inside it is reported with the same kind and a line shifted only by the lines before it;
 and a parsed text placed after other complete constructs gives the same chunks shifted by their lines.""",
 ["inputs"], "every content in every container, nested",
 "Each test exercises one content in one place.",
 ["src/ast1/document.rs", "src/ast2/document.rs", "src/ast3/mathsblock.rs", "src/ast3/environment.rs", "src/ast3/scope.rs"],
 [("recursive parsing of contents", "src/ast1/document.rs eval_scope!, src/ast2/document.rs, src/ast3/mathsblock.rs from_chunks")],
 ["from_str of a text and of its embeddings"])

prop("C21", "Converting hand-built trees down a stage preserves them",
 """For every validated stage-2 or stage-3 document built by hand whose nested chunks carry line numbers that follow too, converting it, or one of its chunks, commands, groups, environments or maths blocks alone, to the stage below succeeds, the result prints exactly as the original does, and its chunks' line numbers follow from one another.""",
 ["programs"], "every validated stage-2 and stage-3 document that can be built",
 "Only one parsed document is ever converted.",
 ["src/ast2/chunk.rs", "src/ast2/document.rs", "src/ast1/document.rs", "src/ast3/chunk.rs", "src/ast3/mathsblock.rs"],
 [("downward conversion", "src/ast1/document.rs, src/ast2/document.rs, src/ast2/chunk.rs, src/ast3/mathsblock.rs")],
 ["ast1::Document::from, ast2::Document::from"])

prop("C22", "Printing and parsing again is a fixed point",
 """For every text a stage accepts, comments included, printing its tree and parsing the print with the same stage succeeds and gives an equal tree, line numbers included.""",
 ["inputs"], "every accepted text at stages 1 to 3",
 "No test parses a printed document.",
 S1 + S2 + S3, [("parser and Display agree", "src/ast1, src/ast2, src/ast3")], ["from_str, to_string"])

prop("C23", "Parsing cost grows at most quadratically",
 """For every family of texts obtained by repeating or nesting a construct, the work of parsing at each stage, of printing, counting lines, validating, copying, comparing, dropping and pushing, and of converting between stages grows at most quadratically with the number of repetitions, as documented.""",
 ["inputs"], "every repetition or nesting of a construct, at growing sizes",
 "No test measures work; a second parse per nesting level would make it exponential unnoticed.",
 ["src/ast1/document.rs", "src/ast1/mod.rs", "src/ast2/document.rs", "src/ast2/mod.rs", "src/ast3/mathsblock.rs", "src/ast3/mod.rs", "src/ast2/chunk.rs"],
 [("one recursive parse per level", "src/ast1/document.rs eval_scope!, src/ast2/document.rs, src/ast3/mathsblock.rs")], ["bytes allocated by from_str, to_string, conversions"])

prop("C24", "Converting a tree up a stage processes it as the grammar says",
 """Converting the stage-1 tree of any text to stage 2, and the stage-2 tree of any text to stage 3, gives exactly what parsing the text with the higher stage gives. Converting a validated stage-1 or stage-2 tree built by hand (its nested chunks' lines following too) gives, when it succeeds, a tree that prints as the original does and whose chunks' lines follow;
 if moreover no text in it is empty or stands next to another, the conversion pairs environments (stage 1 to 2) or finds maths blocks, paragraph breaks and the document's parts (stage 2 to 3) as the grammar says, and fails exactly when it is malformed, with a fault it has and the line of that fault. A command, group or environment converted alone becomes what it becomes in a document; dividing the texts of a list of stage-3 chunks into paragraphs replaces each text by its parts, leaves everything else, and a second time changes nothing.""",
 ["inputs", "programs"], "every parsed tree and every validated tree that can be built by hand",
 "The tests convert the tree of one document.",
 ["src/ast2/document.rs", "src/ast2/command.rs", "src/ast2/scope.rs", "src/ast3/document.rs", "src/ast3/mathsblock.rs", "src/ast3/paragraph.rs", "src/ast3/environment.rs", "src/ast3/command.rs", "src/ast3/scope.rs"],
 [("upward conversion", "TryFrom<ast1::*> in src/ast2, TryFrom<ast2::*> in src/ast3"), ("lists of chunks", "MathsBlock::from_chunks, Paragraph::from_chunks")],
 ["ast2::Document::try_from, ast3::Document::try_from", "TryFrom of Command, Scope and Environment", "ast3::MathsBlock::from_chunks, ast3::Paragraph::from_chunks"])

prop("C25", "Every part of a node can be taken out again as it was put in",
 """For every tree at every stage, the accessors of a document, chunk, command, group or environment (borrowing, owning, mutable, or taking it apart) give exactly the parts it was constructed from, each in its place; building it again from those parts gives an equal node, and the checked constructors, where they accept, build the same node as the unchecked ones.
 Two nodes compare equal exactly when all their parts do, and a copy equals its original and is independent of it. Bracket kinds map to their two characters and across stages one to one.""",
 ["programs"], "every tree that can be built from the node types, and every bracket character",
 "No test takes a node apart.",
 S1 + S2 + S3, [("accessors", "the impl blocks of Document, Chunk, Command, Scope, Environment, ScopeVariant in src/ast1, src/ast2, src/ast3")],
 ["chunks, chunks_owned, label, arguments, variant, line_no, their _owned and _mut forms, decompose, new, new_unchecked"])

prop("C26", "Printing a tree puts its parts together",
 """For every tree at every stage, valid or not and whatever its line numbers, printing a document or any node in it gives the prints of its parts in order with exactly its own delimiters between them: a text its characters, a command its backslash, name and arguments each after its whitespace, a group its brackets, an environment its begin and end commands with label, arguments and whitespace, a maths block its delimiters, a stage-3 document built by hand its sections around the document environment's commands. Printing, counting lines and validating never panic on such a tree.""",
 ["programs"], "every tree that can be built from the node types with the unchecked constructors",
 "Tests print parsed documents only, and few of them.",
 S1 + S2 + S3, [("Display", "impl Display of every node in src/ast1, src/ast2, src/ast3")], ["to_string, lines, validate of every node"])

prop("C27", "Results depend only on the arguments",
 """In every sequence of calls in one process, successful or failing, on the same or other threads, parsing a text with a stage, printing, counting lines and converting down give the result that text has by itself.""",
 ["histories"], "every sequence of calls on texts of every kind",
 "Tests call each function once, in no particular order.",
 S1 + S2 + S3, [("no state outside the values passed", "src/ast1/document.rs, src/ast2/document.rs, src/ast3/document.rs")], ["from_str, to_string, lines and From at every stage, called repeatedly"])

prop("C28", "Processing flat text takes linear time",
 """For every text made of constructs side by side (no construct nested within its own repetition), at top level or within one enclosing construct, the work of parsing at each stage, of printing, of counting lines, of validating, copying, comparing and dropping, of pushing the chunks one by one to another document, and of converting between stages grows at most in proportion to the length of the text, as documented (average case O(n)).""",
 ["inputs"], "every repetition of a construct or pair of constructs, at growing lengths",
 "No test measures work; counting lines from the start of the text for each chunk would go unnoticed.",
 ["src/ast1/document.rs", "src/ast1/mod.rs", "src/ast2/document.rs", "src/ast2/mod.rs", "src/ast3/document.rs", "src/ast3/mathsblock.rs", "src/ast3/paragraph.rs", "src/ast3/mod.rs"],
 [("one pass per stage", "src/ast1/document.rs eval_scope!, src/ast2/document.rs, src/ast3/mathsblock.rs, src/ast3/paragraph.rs")], ["work done by from_str, to_string, lines, conversions"])

prop("C29", "A parsed document put together again is the same",
 """For every text a stage accepts, and every list of chunks in its tree - the document's or each section's, and the content of every group, argument and environment - pushing the chunks one after the other, by variant or as chunks with their line, to an empty document (or to one that holds the first of them) gives exactly that list, line numbers included; the checked pushes do the same wherever the list validates. A stage-3 document whose three sections are pushed back into one without content prints, counts lines and converts down as the parsed one, and equals it where nothing else but the document environment tells them apart.""",
 ["inputs", "histories"], "every accepted text, every list in its tree, every push operation and several places to begin",
 "No test pushes what was parsed: parser and push operations number and join chunks in separate code.",
 ["src/ast1/document.rs", "src/ast2/document.rs", "src/ast3/document.rs"],
 [("line of a pushed chunk, joining of texts", "push* in src/ast1/document.rs, src/ast2/document.rs, src/ast3/document.rs")],
 ["from_str, chunks*, push* of every document"])

prop("C30", "A document built by hand is read back as it was saved",
 """For every validated document built by hand at any stage whose nested chunks' line numbers follow too, and whose print the grammar divides into exactly its nodes, parsing its print with that stage succeeds and gives a document equal to it, line numbers included (a stage-3 document having the class and options its preamble says); and pushing its chunks one by one with the checked operations to an empty document builds the same document.""",
 ["programs"], "every validated tree that can be built by hand and is the division of its own print",
 "The tests never parse what was built by hand.",
 S1 + S2 + S3, [("parser, Display, validation and push agree", "src/ast1, src/ast2, src/ast3")], ["new, push, to_string, from_str of every document"])

prop("C31", "Stack use depends on nesting, not on length",
 """For every text made of constructs side by side, at top level or within one enclosing construct, parsing at each stage, printing, counting lines, validating, copying, comparing, dropping, pushing and converting between stages need no more stack for a long text than for a short one; and for every nesting of constructs they need stack at most in proportion to the depth of the nesting.""",
 ["inputs"], "every repetition or nesting of a construct or pair of constructs, at growing sizes",
 "No test measures stack; a function that calls itself once per chunk or character passes them all and aborts the process on a long document.",
 ["src/ast1/document.rs", "src/ast1/mod.rs", "src/ast2/document.rs", "src/ast2/mod.rs", "src/ast3/document.rs", "src/ast3/mathsblock.rs", "src/ast3/paragraph.rs", "src/ast3/mod.rs"],
 [("loops over characters and chunks, recursion only into content", "src/ast1/document.rs, src/ast2/document.rs, src/ast3/mathsblock.rs, src/ast3/paragraph.rs")], ["stack used by every operation"])

prop("C32", "Memory use is in proportion to flat text and all of it is given back",
 """For every text made of constructs side by side, at top level or within one enclosing construct, the most memory each operation (parsing at each stage, printing, counting lines, validating, copying, comparing, dropping, pushing, converting between stages) holds at once grows at most in proportion to the length of the text; for every nesting of constructs it grows at most quadratically. Once results - trees, texts and errors - are dropped, no memory of them is kept, however many texts were processed.""",
 ["inputs", "histories"], "every repetition or nesting of a construct or pair of constructs, at growing sizes, and long histories of different texts",
 "No test measures memory; a copy of the document kept per chunk, or a cache that is never emptied, passes them all.",
 S1 + S2 + S3, [("owned trees without shared or leaked parts", "src/ast1, src/ast2, src/ast3")], ["memory allocated during and after every operation"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
