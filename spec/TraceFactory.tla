---------------------------- MODULE TraceFactory ----------------------------
EXTENDS Factory, TraceBase
T0 == IsEvent("Begin")
NodesRight(cf, lines) ==
  LET b == Build(cf, lines) IN
  /\ b.ok /\ Len(E.nodes) = Len(b.nodes)
  /\ \A j \in DOMAIN b.nodes : LET n == b.nodes[j] x == E.nodes[j] IN
       /\ x.k = n.k /\ x.io = n.io /\ (n.k # 0 => x.out = n.out)
       /\ Len(x.in) = Len(n.in)
       /\ \A a \in DOMAIN n.in : /\ <<x.in[a][1], x.in[a][2]>> = n.in[a]
                                 /\ Upstream(b, n.in[a]) => x.in[a][3] = 1
                                 /\ n.in[a][1] = 1 => x.in[a][3] = 0
       /\ n.line # 0 => \E a \in DOMAIN x.fits : x.fits[a] = n.line
  /\ E.outs = Outputs(b) /\ E.complete
T1 == /\ IsEvent("Net") /\ E.field = Field(E.cf, E.lines) /\ E.patch = Patchwise(E.cf, E.lines)
      /\ NodesRight(E.cf, E.lines)
(* values (as codes) of the fully convolutional network at every pixel, and of patches x, y of the padded image *)
Windowed(lines) == Straight(lines) /\ (\A i \in DOMAIN lines : lines[i][1] = 1 => lines[i][7] = 0 /\ lines[i][8] = 0) /\ PriorLate(lines) /\ (\A i \in DOMAIN lines : lines[i][1] # 3 \/ lines[i][2] = 1)
T2 == /\ IsEvent("Both")
      /\ LET r == RF(E.lines) IN
         /\ E.size = PatchSize(E.lines)
         /\ Windowed(E.lines) =>
              \A a \in DOMAIN E.patches : LET p == E.patches[a] x == p[1] + r.x \div 2 y == p[2] + r.y \div 2 IN
                /\ x % r.fx = 0 /\ y % r.fy = 0
                /\ \A u \in 0..(r.fx - 1), v \in 0..(r.fy - 1) : E.pix[(y + v) * E.cf.w + x + u + 1] = p[3]
TNext == (T0 \/ T1 \/ T2)
TSpec == l = 1 /\ [][TNext]_l
=============================================================================
