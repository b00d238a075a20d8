"""The properties and what decides them."""
import about
import p_clean
import p_edit
import p_graph
import p_load
import p_version


class Prop:
    level = "other"
    assumptions = []
    explain = ""
    rule = ""

    def __init__(self, pid, gen, explain="", rule="", assumptions=()):
        self.pid, self.gen, self.explain, self.rule = pid, gen, explain, rule
        self.assumptions = list(assumptions)

    def scenarios(self, tier):
        seen, r = {}, []
        for s in self.gen(tier):
            n = seen[s.sid] = seen.get(s.sid, 0) + 1
            if n > 1:
                s.sid += " (%d)" % n
            r.append(s)
        return r


PROPS = {}
for p in [Prop("C01", p_load.c01), Prop("C02", p_load.c02), Prop("C03", p_load.c03), Prop("C05", p_version.c05),
          Prop("C04", p_edit.c04), Prop("C06", p_graph.c06), Prop("C07", p_graph.c07), Prop("C08", p_graph.c08), Prop("C09", p_graph.c09), Prop("C10", p_graph.c10),
          Prop("C11", p_graph.c11), Prop("C12", p_edit.c12), Prop("C13", p_edit.c13), Prop("C14", p_edit.c14), Prop("C20", p_edit.c20), Prop("C21", p_edit.c21),
          Prop("C22", p_edit.c22), Prop("C27", p_edit.c27), Prop("C28", p_edit.c28), Prop("C15", p_clean.c15), Prop("C16", p_clean.c16), Prop("C17", p_clean.c17), Prop("C18", p_clean.c18),
          Prop("C19", p_clean.c19), Prop("C23", p_clean.c23), Prop("C24", p_graph.cyc), Prop("C32", p_edit.c32), Prop("C33", p_edit.c33), Prop("C34", p_edit.c34), Prop("C35", p_graph.unconnected), Prop("C25", p_graph.order), Prop("C26", p_graph.paths)]:
    PROPS[p.pid] = p
    a = about.A[p.pid]
    p.rule, p.assumptions = a["rule"], [a["note"]]
    p.explain = "%s. Each scenario below is one abstract input and one operation; 'held' means that every path through the source ends in a result that meets the specification." % a["technique"].capitalize()


def get(pid):
    return PROPS[pid]
