#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: run to regenerate it.
import json,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
base="Seeded search, no exhaustive guarantee: what is not drawn is not covered. Trusted: the source rewriter and the simulator runtime (sim/instr, sim/zsim/rt), the harness and the judge. "
T={
"C01":("seeded simulation of goroutine schedules, limits and CPU counts; outcome and pixels compared with a sequential reference run",base+"The reference is the same code run sequentially, so an error common to both is not seen here (C18 covers lossless images)."),
"C02":("seeded simulation under the race detector, with the simulator's own hand-over hidden from it",base+"Happens-before race detection over the simulated schedules; trusts ThreadSanitizer."),
"C03":("seeded simulation of concurrent clients; each result compared with the operation alone in a fresh process",base),
"C04":("seeded simulation of operation histories with I/O faults and simulated buffer recycling; each result compared with a fresh process",base),
"C05":("seeded simulation of exports, decodes and queries around a kept image; digests and first-export comparison",base),
"C06":("seeded simulation of byte delivery (short, empty, single-byte, end-of-file with data, slow); outcome compared with full reads",base),
"C07":("fault injection at drawn read and seek positions; error or exact result, and healthy retries, checked",base),
"C08":("simulated truncation at drawn byte positions; error or the exact result of the complete file",base),
"C09":("simulated damage of stored bytes under random schedules; no panic, crash, deadlock or wrong later result",base+"Runs in which declared sizes exceed the memory allowance are discarded and counted."),
"C10":("torn sections in generated files under random schedules; the decode must fail",base+"Only sections torn by at least 16 bytes are judged, for which success is impossible. Generated files (modular and VarDCT) only."),
"C11":("simulated container layouts and section orders; outcome compared with the bare codestream",base),
"C12":("seeded simulation of header queries around decodes; sizes compared with the decode",base),
"C13":("seeded simulation of concurrent pool users against an ownership model, over simulated sync.Pool behaviours",base),
"C14":("fault injection at drawn write positions; parsed output compared with the samples of the image",base+"PNG files are parsed with the standard library."),
"C15":("seeded simulation with faults, unfair schedules and step budgets; goroutine census after every operation",base+"A step budget of a constant plus a multiple of the elements allocated stands for 'ends'."),
"C16":("model-based simulation of bit reader programs over faulty sources",base),
"C17":("seeded simulation counting goroutines at work per operation",base+"A goroutine counts as working when it ran 200 points since its last synchronisation and is runnable."),
"C18":("seeded simulation of decodes of images made by a built-in lossless encoder; samples compared exactly",base+"Covers the features the built-in modular encoder has; lossy coding is left to C19."),
"C19":("seeded simulation of decodes of images made by a built-in lossy bitstream writer; every group compared bit by bit with the same group stored as an image of its own",base+"A relation between decodes, not a comparison with true samples: an error that a group shows in the same way by itself is not seen. With filters on, samples within their reach of inner group borders do not count."),
"C21":("seeded simulation of exports, sequential and concurrent, of decoded generated images; every component compared with a double-precision conversion of the decoded sample",base+"Judges the export against the samples as decoded (C18 and C20 judge those). Not judged: images tagged with PQ, HLG or linear transfer or with primaries other than sRGB's and P3's."),
"C22":("seeded simulation of header queries and decodes of files made by a built-in header and profile writer, over drawn deliveries and containers; every field compared with what was written",base+"Covers image headers without animation; frame headers are covered by what they do to the samples (C18, C20). The profile encoder was written from the format's rules."),
"C20":("seeded simulation of decodes of images made by a built-in bitstream writer; samples compared with a double-precision model of what was written",base+"Covers the features the built-in writer has; not judged: lossy images of one colour, colour factors of blocks that lie on several tiles, smoothing across LF groups, multi-pass lossy images, patches, splines, noise. The model was written from the format's rules, independently of the decoder's code."),
}
checks=[]
for p,(t,n) in T.items():
    checks.append(dict(property=p,quick_cmd=f"bash run.sh check {p}",thorough_cmd=f"bash run.sh check {p}",evidence_file=f"evidence/{p}.json",
        technique="deterministic simulation: "+t,level="fault_enumeration" if p in("C07","C08","C10","C14") else "exploration",level_note=n))
na=[]
json.dump(dict(version=1,setup_cmd="bash run.sh setup",
 hooks=dict(guard="none in /repo",enable="no hook is committed: sim/instr rewrites a copy of the working tree (under /verif/.work) so that go statements, channels, sync, atomic, time, CPU count and map order go through the simulator, and inserts preemption points; the shipped sources have no change",source_commits=[]),
 checks=checks,not_applicable=[dict(property=a,reason=b) for a,b in na],
 notes="All checks are one driver (sim/driver). A violation is written as a replay file; 'bash run.sh replay FILE' reproduces it. Every check rebuilds from /repo's working tree."),open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
