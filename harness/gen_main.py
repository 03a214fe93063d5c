import re,glob
mods=['body','hdr','tags','values','codec','names','policy','keys','sound','sigout','e2e','robust','stop','transit','alone','print','defaults','blocks','strict','large','history','legacy']
import os
mods=[m for m in mods if os.path.exists(m+'.rs')]
out=["mod common;","mod oracle;","mod rt;"]
for m in mods:
    pre='#[cfg(feature = "legacy")]\n' if m=='legacy' else ''
    out.append(pre+f"mod {m};")
out.append("\nfn main() {\n    let table: &[(&str, extern \"C\" fn())] = &[")
for m in mods:
    for e in re.findall(r'pub extern "C" fn (h_\w+)',open(m+'.rs').read()):
        if m=='legacy': out.append('        #[cfg(feature = "legacy")]')
        out.append(f'        ("{e}", {m}::{e}),')
out.append("    ];\n    rt::replay_main(table);\n}")
open('main.rs','w').write("\n".join(out)+"\n")
