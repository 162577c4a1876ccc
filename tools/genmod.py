import glob,os
d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness/src/props')
ids=sorted(os.path.basename(f)[:-3] for f in glob.glob(d+'/c??.rs'))
open(d+'/mod.rs','w').write("use crate::engine::Property;\n\n"+"".join(f"pub mod {i};\n" for i in ids)+"\npub fn all() -> Vec<Property> {\n    vec![\n"+"".join(f"        {i}::property(),\n" for i in ids)+"    ]\n}\n")
