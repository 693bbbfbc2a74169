"""Prints the contracts of functional option constructors: each sets its own field and no other."""
import sys
def gen(prop, fields, opts, typ="Options"):
    out=[]
    for name, param, field, val in opts:
        cl=[]
        for f,b in fields:
            l="apply(result, o).%s"%f
            r=(val or param) if f==field else "o.%s"%f
            cl.append(("(%s <==> %s)" if b else "%s == %s")%(l,r))
        out.append("func %s(%s) result\n  props %s\n  flag inline\n  ensures result != nil && forall o %s :: %s\n"%(name,param or "",prop,typ," && ".join(cl)))
    return "\n".join(out)
if __name__=="__main__":
    w=sys.argv[1]
    S={
     "runner":("C17",[("Store",0),("Broker",0),("Marshaler",0)],[("WithStore","s","Store",None),("WithBroker","b","Broker",None),("WithMarshaler","m","Marshaler",None)]),
     "ingester":("C16",[("Marshaler",0)],[("WithMarshaler","m","Marshaler",None)]),
     "digester":("C16",[("Handler",0),("Unmarshaler",0)],[("WithHandler","h","Handler",None),("WithMarshaler","m","Unmarshaler",None)]),
     "broker":("C14",[("Cap",0),("Sink",0),("PubTimeout",0),("RecvTimeout",0)],[("WithCap","c","Cap",None),("WithSink","s","Sink",None),("WithPubTimeout","p","PubTimeout",None),("WithSubTimeout","s","RecvTimeout",None)]),
     "graph":("C18, C08",[("UID",0),("DOTID",0),("Attrs",0),("Weight",0),("Name",0),("NoCache",1),("Upsert",1),("DOTOptions",0)],[("WithUID","u","UID",None),("WithDOTID","dotid","DOTID",None),("WithName","name","Name",None),("WithAttrs","a","Attrs",None),("WithWeight","w","Weight",None),("WithUpsert","","Upsert","true"),("WithNoCache","","NoCache","true"),("WithDOTOptions","do","DOTOptions",None)]),
     "store":("C10",[("Upsert",1),("Graph",0),("Attrs",0)],[("WithUpsert","","Upsert","true"),("WithGraph","g","Graph",None),("WithAttrs","a","Attrs",None)]),
     "cache":("C06",[("Upsert",1)],[("WithUpsert","","Upsert","true")]),
    }
    print(gen(*S[w]))
