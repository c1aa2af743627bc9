"""ed(path, old, new): exact single replacement, keeps CRLF"""
def ed(path, old, new, count=1):
    s=open(path,newline='',encoding='utf-8').read()
    crlf='\r\n' in s
    t=s.replace('\r\n','\n') if crlf else s
    assert t.count(old)==count,(path,t.count(old))
    t=t.replace(old,new)
    if crlf: t=t.replace('\n','\r\n')
    open(path,'w',newline='',encoding='utf-8').write(t)
