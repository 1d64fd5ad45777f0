@units ident
@fn pid::Pid#Serialize::serialize(self, serializer) inst.S=Ser ret=Result<Out,SerErr>
  ensures *final(w) == *old(w), r matches Ok(o) ==> o@ == Wire::Pid(pid_wire(*old(w), *self)),
@fn pid::Pid#Deserialize::deserialize(deserializer) inst.D=De ret=Result<Pid,DeErr> tryid
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)),
  ensures
    match r { Ok(p) => deserializer@ matches Wire::Pid(x) && pid_read(*final(w), x, p), Err(_) => !(deserializer@ is Pid) },
    keeps_meanings(*old(w), *final(w)), nodes_wf(*final(w)), own_once(*old(w)) ==> own_once(*final(w)),
@fn reference::Reference#Serialize::serialize(self, serializer) inst.S=Ser ret=Result<Out,SerErr>
  ensures *final(w) == *old(w), r matches Ok(o) ==> o@ == Wire::Ref(ref_wire(*old(w), *self)),
@fn reference::Reference#Deserialize::deserialize(deserializer) inst.D=De ret=Result<Reference,DeErr> tryid
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)),
  ensures
    match r { Ok(p) => deserializer@ matches Wire::Ref(x) && ref_read(*final(w), x, p), Err(_) => !(deserializer@ is Ref) },
    keeps_meanings(*old(w), *final(w)), nodes_wf(*final(w)), own_once(*old(w)) ==> own_once(*final(w)),
@fn node::Node#Serialize::serialize(self, serializer) inst.S=Ser ret=Result<Out,SerErr>
  ensures *final(w) == *old(w), r matches Ok(o) ==> o@ is Node && node_wire(*old(w), *self, o@->Node_0),
@fn node::Node#Deserialize::deserialize(deserializer) inst.D=De ret=Result<Node,DeErr> tryid
  ensures
    *final(w) == *old(w),
    match r { Ok(n) => deserializer@ matches Wire::Node(x) && node_read(*final(w), x, n), Err(_) => !(deserializer@ is Node) || deserializer@->Node_0.address is None },
