import subprocess, json
log=subprocess.run("git -C /repo log --reverse --format='%h %s' d9dc1d0..HEAD",shell=True,capture_output=True,text=True).stdout.splitlines()
P=dict([("compose reserved","C02"),("write the length of","C03"),("decode nodes 225","C27"),("decode all bytes of the supported","C25"),("decode CONFIGURATION_SET","C05"),
("report a missing endpoint","C24"),("accept Z/IP header ext","C28"),("skip unknown values","C28"),("give every request","C10"),("always forget an ack","C07"),("skip sequence numbers","C09"),
("wrap the network","C09"),("accept a queued ack","C08"),("ignore datagrams","C06"),("ignore truncated supervision","C12"),("accept node information ending","C13"),("keep changes when storage","C14"),
("a failing asynchronous","C11"),("deliver mailbox entries","C20"),("queue mailbox entries","C20"),("go on with mailbox","C21"),("keep mailbox entries in order","C20"),("only use the address","C33"),("open only one","C33"),("the connection of a removed","C33"),
("report network management commands","C27"),("handle all nodes of","C18"),("acknowledge unsolicited node list","C17"),("keep native values","C15"),("restore the interviewed","C15"),("restore the commands of","C15"),
("only use the version report","C16"),("only return the value of","C23"),("read association groups","C24"),("ignore command lists","C26"),("compare bit values","C30"),("only use the scales","C25"),
("do not update the nodes several","C19"),("do not mark association group","C16"),("reject Z/IP header extensions with length zero","C28"),
    ("reject Z/IP header extensions that end","C28"),
    ("Stop and sendTo of a connection","C36"),
    ("go on with the interview of other","C42"),("a truncated version report","C42"),("handle truncated network","C42"),
    ("ignore incomplete configuration","C42"),("leave an association group","C42"),
    ("do not write keys beyond","C46"),("a DTLS connection that is stopped","C46"),
("do not announce nodes added","C19"),("accept a key taken","C29"),("read and write the length of the key","C29"),("accept a printed key","C29"),("ignore unknown provisioning","C31"),("store the changes of an interview","C14"),("store the association group information","C14"),("store association groups","C14"),("log the errors of async","C06"),("do not let errors in message handlers","C06")])
fixed=[]
for l in log:
    h,msg=l.split(" ",1); assert msg.startswith("fix: "),msg
    k=[v for q,v in P.items() if msg[5:].startswith(q)]
    assert len(k)==1,(msg,k)
    fixed.append("fixed: property=%s %s %s"%(k[0],h,msg[5:]))
p="/verif/known_findings.json"; d=json.load(open(p)); d["fixed"]=fixed
json.dump(d,open(p,"w"),indent=1); open(p,"a").write("\n")
print(len(fixed))
