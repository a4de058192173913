------------------------------- MODULE JsonLife -------------------------------
(* Life of objects and their JSON documents.                                 *)
(*   objs   live objects: [content, origin]; origin = the document the       *)
(*          object was loaded from while it has not been changed since, or 0 *)
(*   docs   documents (JSON-able dictionaries): [content, source]; source =  *)
(*          the object it shows, while that one has not been changed since   *)
(* dump    object -> new document with the same content                      *)
(* text    document -> JSON text -> new document, same content               *)
(* load    document -> new object with the same content                      *)
(* change  modify one object: no other object and no document is affected    *)
(* Documents never change.                                                   *)
EXTENDS StudyBuild

Obj(c, d) == [content |-> c, origin |-> d]
Doc(c, o) == [content |-> c, source |-> o]

\* documents of one content are the same text
DumpOf(objs, i) == Doc(objs[i].content, i)
LoadOf(docs, d) == Obj(docs[d].content, d)
Forget(docs, i) == [k \in DOMAIN docs |-> IF docs[k].source = i THEN [docs[k] EXCEPT !.source = 0] ELSE docs[k]]

\* a building call addressed to (net, node) on a study content, networks and nodes being declared on the way
Place(st, net, node) == AddNode(AddNet(st, net), net, node)
CallOK(st, c) == Accepts(Place(st, c.net, c.node), Handle("node", c.net, c.node), c)
CallEffect(st, c) == LET p == Place(st, c.net, c.node) IN
                     IF CallOK(st, c) THEN Effect(p, Handle("node", c.net, c.node), c) ELSE p
=============================================================================
