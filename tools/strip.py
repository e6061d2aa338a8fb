import re,sys
for f in sys.argv[1:]:
    src=open(f).read()
    i=src.find("#[cfg(test)]\nmod tests")
    if i>0: src=src[:i]
    out=[]
    for l in src.split("\n"):
        s=l.strip()
        if s.startswith("//") or not s or s.startswith("use ") : continue
        if s in("#[inline]","self","}","#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]"): 
            if s=="}" and out and l=="}": out.append("}")
            continue
        s=s.replace("-> &mut Self","->S").replace("self.pair(Name(b","P(").replace("pub fn ","F ").replace("self.insert(Name(b","I(").replace("&mut self","m")
        out.append(s)
    t="\n".join(out)
    t=re.sub(r"\{\n","{ ",t)
    t=re.sub(r",\n",", ",t)
    print("=====",f); print(t)
