import json
T={
"C01":"property-based testing: generated tar entry lists against a reference tree",
"C02":"property-based testing: generated tar entry lists against a reference tree",
"C03":"property-based testing: generated symlink graphs against a POSIX path resolution model",
"C04":"property-based testing: generated link chains and repeated entries against a reference tree, opened repeatedly",
"C05":"property-based testing: generated source trees, independent reader plus round trip",
"C06":"property-based testing: images from an independent generator against the encoded tree",
"C07":"property-based testing: lookup against listing over generated and created images",
"C08":"property-based testing: generated symlink graphs against a POSIX path resolution model",
"C09":"property-based testing: Create/Open round trip of generated source trees",
"C10":"property-based testing: created images against an independent format checker",
"C11":"property-based testing: bit flips and field edits of superblocks, checksum recomputed independently",
"C12":"property-based testing: generated ar archives against the encoded member list",
"C13":"property-based testing: generated flat sources, independent ar parser plus round trip",
"C14":"stateful model-based testing: operation sequences against a map model",
"C15":"randomised concurrent histories with injected yields, linearizability checking and the race detector",
"C16":"property-based testing: io/fs contract predicates on all four filesystems against a reference tree",
"C17":"structured mutation fuzzing of tar streams (plus coverage-guided fuzzing when thorough)",
"C18":"structured mutation fuzzing of ar archives (plus coverage-guided fuzzing when thorough)",
"C19":"structured mutation fuzzing of EROFS images (plus coverage-guided fuzzing when thorough)",
"C20":"enumeration of truncation points and reader failures over generated archives",
"C21":"enumeration of failing writes and failing source operations over generated trees",
"C22":"metamorphic testing: repeated and copied archives over generated sources",
"C23":"randomised concurrent scripts with injected yields under the race detector, against sequential answers",
"C24":"metamorphic testing: reader behaviours and buffer sizes over generated archives",
"C25":"metamorphic testing: chains of conversions over generated trees",
"C26":"property-based testing: sources with a planted unrepresentable item",
"C27":"property-based testing: images from an independent generator, every exported accessor against what was encoded",
"C28":"enumeration of failing source operations and writes over generated sources that record what is asked of them",
"C29":"property-based testing: generated file sizes with bytes read and bytes allocated counted against a budget",
"C30":"generated jobs nested in one another at drawn operations, and run at once with injected yields under the race detector, against the results alone",
"C31":"property-based testing: generated owner names and PAX records, through Sys and through copies, against what was written",
"C32":"property-based testing: generated changes of the source at drawn operations of Create; what is archived against every version there was and what was delivered",
"C33":"differential property-based testing: generated directories on disk, archived and compared by GNU tar and ar, against the packages and the tree",
}
base="Generated-input search: every case explored held, nothing is proved beyond them. Trusts the reference model and the independent encoders and parsers of the harness, archive/tar and the Go runtime."
N={"C15":" Schedules come from the Go scheduler plus injected yield points; they are sampled, not enumerated, and not pinned by the seed.",
"C23":" Schedules come from the Go scheduler plus injected yield points; they are sampled, not enumerated, and not pinned by the seed.",
"C30":" Nested runs are deterministic; for the concurrent ones schedules come from the Go scheduler plus injected yield points, sampled and not pinned by the seed.",
"C28":" For every generated source, the failing operation or write is enumerated within a window (all of them when it is small).",
"C29":" The budgets are fixed allowances (512 KiB plus 64 KiB per file for reading metadata), not measurements.",
"C20":" For every generated archive, truncation points and read failures are enumerated within a window (all of them when it is small).",
"C21":" For every generated tree, the failing write or source operation is enumerated within a window (all of them when it is small).",
"C16":" One recorded finding: the Type of EROFS directory entries."}
m={"version":1,"setup_cmd":"./check build","checks":[],"not_applicable":[],"notes":"No hooks in /repo. ./check replay FILE runs a saved failure again."}
for i in sorted(T):
    m["checks"].append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"VERIF_TIER=thorough ./check "+i,"technique":T[i],"level":"fault_enumeration" if i in("C20","C21","C28") else "exploration","level_note":base+N.get(i,"")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
