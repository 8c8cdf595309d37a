"""What is analysed for each property (see DESIGN.md)."""
ASSUMPTIONS = [
    "64-bit Linux, GNU C++ library, -std=c++14; arithmetic of size_t modulo 2^64 is modelled exactly",
    "objects are smaller than 2^62 bytes",
    "values compiled by clang -O0 correspond to the C++ semantics; floating-point values are treated as arbitrary",
]
PROPERTIES = {
 "S01": {
  "rule": "abstract interpretation of every string_view member on a view of unknown length, contents and arguments; each memory access inside the viewed block, each result a part of the view / a position in it",
  "anchors": [r"basic_string_view<char.*>::substr", r"basic_string_view<char.*>::find\b", r"basic_string_view<char.*>::copy"],
  "groups": [{"harness": ["string_view.cc"], "small": True}],
 },
}
PROPERTIES["S02"] = {
  "rule": "every trim variant on a text and whitespace set of unknown length and contents: result is a part of the input, its ends are no whitespace, an arbitrary remembered non-whitespace character is never cut off", "anchors": [r"trim_sv"],
  "groups": [{"harness": ["trim.cc"], "small": True}],
}
PROPERTIES["S03"] = {
  "rule": "an arbitrary remembered character at an arbitrary position of a text of unknown length is mapped by the ASCII rule, length unchanged", "anchors": [r"lowercase_ascii", r"uppercase_ascii"],
  "groups": [{"harness": ["case.cc"], "small": True}],
}
PROPERTIES["S04"] = {
  "rule": "a difference at an arbitrary position decides, a part of a text is recognised, exact results on one-character texts over all byte pairs", "anchors": [r"contains", r"starts_with", r"ends_with", r"equals_nocase"],
  "groups": [{"harness": ["predicates.cc"], "small": True}],
}
PROPERTIES["S05"] = {
  "rule": "result length and an arbitrary remembered character of every piece; every memory access in bounds; every block released, with every allocation allowed to fail", "anchors": [r"gul14::cat", r"join", r"replace", r"repeat", r"safe_string"],
  "groups": [{"harness": ["compose.cc"], "small": True}],
}

COPY_ALLOC = {"vfh_copy_ctor_heap": ["--no-alloc-fail"], "vfh_copy_assign_hh": ["--no-alloc-fail"], "vfh_copy_assign_ih": ["--no-alloc-fail"], "vfh_copy_ctor_inner": ["--no-alloc-fail"], "vfh_copy_assign_ii": ["--no-alloc-fail"], "vfh_copy_assign_hi": ["--no-alloc-fail"]}
SV_LADDER = [["--K", "4", "--peel", "1"], ["--K", "8", "--peel", "5"], ["--K", "16", "--peel", "1"], ["--K", "48", "--peel", "1"], ["--K", "96", "--peel", "1"]]
PROPERTIES["C01"] = {
  "rule": "every SmallVector operation on a vector of arbitrary size and capacity, in inner or allocated storage: each access inside the current storage, lifetime of an arbitrary element position obeyed, size after the operation exact, storage released once; every allocation may fail", "anchors": [r"SmallVector<.*>::insert", r"SmallVector<.*>::reserve", r"SmallVector<.*>::erase", r"SmallVector<.*>::swap"],
  "groups": [{"harness": ["smallvec_safe.cc"], "small": True, "ladder": SV_LADDER, "entry_opts": COPY_ALLOC}],
}
PROPERTIES["C02"] = {
  "rule": "as C01 with elements whose construction, copy construction and copy assignment may throw at every occurrence (thorough: moves as well): lifetimes still obeyed, nothing leaked, vector still consistent", "anchors": [r"SmallVector<.*>::insert", r"SmallVector<.*>::reserve", r"SmallVector<.*>::erase"],
  "groups": [{"harness": ["smallvec_safe.cc"], "cflags": ["-DTHROWS=true"], "small": True, "ladder": SV_LADDER, "entry_opts": COPY_ALLOC},
             {"harness": ["smallvec_safe.cc"], "cflags": ["-DTHROWS=true", "-DMOVETHROWS=true"], "small": True, "ladder": SV_LADDER, "entry_opts": COPY_ALLOC},
             {"harness": ["smallvec_safe.cc"], "cflags": ["-DMOVEONLY"], "small": True, "ladder": SV_LADDER}],
}
PROPERTIES["C03"] = {
  "rule": "one remembered element at an arbitrary position (old, inserted or copied): its position and value after every SmallVector operation, moved-from elements being arbitrary afterwards", "anchors": [r"SmallVector<.*>::insert", r"SmallVector<.*>::erase", r"SmallVector<.*>::swap"],
  "groups": [{"harness": ["smallvec_content.cc"], "small": True, "opts": ["--no-alloc-fail"], "ladder": [["--K", "4", "--peel", "1"], ["--K", "8", "--peel", "8"], ["--K", "16", "--peel", "1"], ["--K", "32", "--peel", "8"]]}],
}
