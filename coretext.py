"""Extracts functions of the installed library/core, to be proved against the
contracts that stand for them: `run_utf8_validation` and what `str::trim` calls.

Changed in the former, and nothing else: `pub(super)` and `const` are dropped, of
const_eval_select! the run-time branch is kept, NONASCII_MASK is defined by its value.
Changed in the latter: attributes and `pub(super)` are dropped; the trait dispatch
from `trim` to the searcher is replaced by inherent methods (frame in coretext.rs);
slice::Iter<u8> is replaced by `Bytes` in coretext.rs. Added in both: a loop invariant on
each loop.
"""
import os
import re
import subprocess

INVARIANT = "index <= len && boundary(index)"
LOOPS = {
    "while index < len {": INVARIANT,
    "while index < blocks_end {": INVARIANT + " && align.wrapping_sub(index) % USIZE_BYTES == 0",
    "while index < len && v[index] < 128 {": INVARIANT,
}


def item(src, start, end):
    a = src.index(start)
    return src[a:src.index(end, a) + len(end)]


def once(text, a, b):
    if text.count(a) != 1:
        raise ValueError("the text of library/core has changed: " + a)
    return text.replace(a, b)


def block(src, start):
    """The item at `start` (after the previous `anchor`), up to its closing brace."""
    a = src.index(start)
    i = depth = src.index("{", a)
    depth = 0
    while True:
        depth += {"{": 1, "}": -1}.get(src[i], 0)
        i += 1
        if depth == 0:
            return src[a:i] + "\n"


def after(src, anchor):
    return src[src.index(anchor):]


def trim(core):
    """The text behind str::trim."""
    read = lambda f: open(os.path.join(core, f)).read()
    text, it, pat, val = read("str/mod.rs"), read("str/iter.rs"), read("str/pattern.rs"), read("str/validations.rs")
    body = block(text, "pub fn trim(&self) -> &str")
    if body.split() != "pub fn trim(&self) -> &str { self.trim_matches(char::is_whitespace) }".split():
        raise ValueError("the text of library/core has changed: trim")
    out = ["const CONT_MASK: u8 = 0b0011_1111;\n"]
    if out[0] not in val:
        raise ValueError("the text of library/core has changed: CONT_MASK")
    for f in ("const fn utf8_first_byte", "const fn utf8_acc_cont_byte", "const fn utf8_is_cont_byte",
              "unsafe fn next_code_point<", "unsafe fn next_code_point_reverse<"):
        out.append(block(val, f))
    for name in ("Chars", "CharIndices"):
        s = block(it, f"pub struct {name}<'a>").replace("pub(super) ", "").replace("pub struct", "struct")
        out.append(s.replace("slice::Iter<'a, u8>", "Bytes<'a>"))
        f = after(it, f"impl<'a> Iterator for {name}<'a>")
        out.append(f"impl<'a> {name}<'a> {{\n" + block(f, "fn next(&mut self)")
                   + block(after(it, f"impl<'a> DoubleEndedIterator for {name}<'a>"), "fn next_back(&mut self)") + "}\n")
    out.append(once(block(pat, "struct MultiCharEqSearcher<"), "super::", "").replace("<'a, C: MultiCharEq>", "<'a, C: FnMut(char) -> bool>"))
    methods = []
    for f in ("fn next(&mut self)", "fn next_back(&mut self)"):
        trait = "ReverseSearcher" if "back" in f else "Searcher"
        m = block(after(pat, f"unsafe impl<'a, C: MultiCharEq> {trait}<'a> for MultiCharEqSearcher<'a, C>"), f)
        methods.append(once(m, "self.char_eq.matches(c)", "(self.char_eq)(c)"))
    if "(*self)(c)" not in block(pat, "impl<F> MultiCharEq for F"):
        raise ValueError("the text of library/core has changed: MultiCharEq")
    for f, state in (("fn next_reject(&mut self)", "front"), ("fn next_reject_back(&mut self)", "back")):
        m = block(after(pat, "pub unsafe trait ReverseSearcher" if state == "back" else "pub unsafe trait Searcher"), f)
        methods.append(once(m, "loop {", f"#[kani::loop_invariant({state}(&self.char_indices))]\nloop {{"))
    out.append("impl<'a, C: FnMut(char) -> bool> MultiCharEqSearcher<'a, C> {\n" + "".join(methods) + "}\n")
    m = block(text, "pub fn trim_matches<")
    head = m[:m.index("{")]
    m = m.replace(head, "fn trim_matches<F: FnMut(char) -> bool>(&self, pat: F) -> &str ")
    m = once(m, "pat.into_searcher(self)", "into_searcher(pat, self)")
    out.append("impl Trim for str {\n" + m + "}\n")
    return "".join(out)


def extract(to):
    root = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, cwd="/").stdout.strip()
    core = os.path.join(root, "lib/rustlib/src/rust/library/core/src")
    src = open(os.path.join(core, "str/validations.rs")).read()
    f = item(src, "pub(super) const fn run_utf8_validation", "\n}\n")
    f = once(f, "pub(super) const fn", "fn")
    select = re.search(r"const_eval_select!\(.*?else \{(.*?)\}\s*\);", f, re.S)
    f = once(f, select.group(0), select.group(1).strip() + ";")
    for loop, invariant in LOOPS.items():
        f = once(f, loop, f"#[kani::loop_invariant({invariant})]\n{loop}")
    mask = item(src, "const NONASCII_MASK", "\n")
    if "usize::repeat_u8(0x80)" not in mask:
        raise ValueError("the text of library/core has changed: NONASCII_MASK")
    with open(to, "w") as out:
        out.write("const NONASCII_MASK: usize = usize::from_ne_bytes([0x80; size_of::<usize>()]);\n"
                  + item(src, "const fn contains_nonascii", "\n}\n") + item(src, "const UTF8_CHAR_WIDTH", "\n];\n")
                  + item(src, "pub const fn utf8_char_width", "\n}\n") + f + trim(core))
