import json,subprocess,re
PID={"23649d4":"C01","6348469":"C24","6fc6dde":"C23","f8718ce":"C02","0f697b8":"C02","6e4866f":"C02","4a19640":"C03","99915ae":"C04","a7b5c8d":"C16","2570a91":"C05","cb72fcf":"C06","cc2c00d":"C11","bcbc4ec":"C11","c501c53":"C12","2c8e907":"C13","eaed8ab":"C13","86f9d22":"C09","860daf2":"C06","17e8705":"C09","3674496":"C19","c36bd12":"C07","608de80":"C07","5f1e318":"C10","7b66348":"C16","ef5f329":"C15","c50d4d4":"C15","d792865":"C23","123db32":"C13","483f00c":"C23","dec7025":"C13","19a61bb":"C17","2a18618":"C17","8574248":"C14","2ac07a1":"C23","5cd370b":"C13","4ce3ef9":"C19","9b94f8c":"C07"}
EXTRA=json.load(open("/verif/tools/fixed_pids.json")) if __import__("os").path.exists("/verif/tools/fixed_pids.json") else {}
PID.update(EXTRA)
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--oneline","c5956c4..HEAD"],text=True).splitlines()
d=json.load(open("/verif/known_findings.json"))
out=[f for f in d["findings"] if f["status"]=="known"]
if "DROP" in globals(): pass
out=[f for f in out if f["key"] not in ("orthonormal-eigsh-degenerate","ft-tiny-g")]
for l in log:
    sha,msg=l.split(" ",1)
    if not msg.startswith("fix:"): print("non-fix",l); continue
    p=PID[sha]
    out.append(dict(property=p,key="fixed-"+sha,status="fixed",commit=sha,what="fixed: property=%s %s %s"%(p,sha,msg[5:])))
json.dump(dict(findings=out),open("/verif/known_findings.json","w"),indent=1)
open("/verif/known_findings.json","a").write("\n")
json.dump(PID,open("/verif/tools/fixed_pids.json","w"),indent=1)
