"""P33: dependency graphs show the real dependencies."""

import re
import shutil
from xml.etree import ElementTree

import numpy as np
from hypothesis import strategies as st

from aptv import graphs, kit, shipped
from aptv.harness import HarnessError, require

RULE = "a graph of at least three needed plugins, or with plugins that are not needed"

SVG = "{http://www.w3.org/2000/svg}"


@st.composite
def cases(draw):
    spec = draw(graphs.graph(params=False, custom_nodep=False))
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    names = list(spec["names"])
    return {
        "spec": spec,
        "request": [str(x) for x in rng.permutation(names)[: rng.randint(1, 4)]],
        "with_data_names": bool(rng.rand() < 0.5),
    }


def read(tree):
    """Nodes (with the text shown in them) and edges of the picture of a graph."""
    import appletree as apt

    nodes, edges = {}, set()
    svg = apt.utils.tree_to_svg(tree, save_as=kit.unique("graph"), view=False)
    svg = getattr(svg, "data", svg)
    for g in ElementTree.fromstring(svg).iter(SVG + "g"):
        if g.get("class") not in ("node", "edge"):
            continue
        title = g.find(SVG + "title").text
        if g.get("class") == "node":
            nodes[title] = [t.text for t in g.iter(SVG + "text")]
        else:
            edges.add(tuple(title.split("->")))
    return nodes, edges


def compare(component, registry, request, with_data_names, rec):
    """``registry``: data name -> (class name, inputs, outputs)"""
    import appletree as apt
    import graphviz

    names, data_edges, plugins, plugin_edges = set(), set(), {}, set()
    todo = list(request)
    while todo:
        name = todo.pop()
        if name in names:
            continue
        names.add(name)
        if name == "batch_size":
            continue
        cls, inputs, outputs = registry[name]
        plugins[cls] = (inputs, outputs)
        for dep in inputs:
            data_edges.add((name, dep))
            if dep != "batch_size":
                plugin_edges.add((cls, registry[dep][0]))
            todo.append(dep)
    tree, _ = apt.utils.add_deps_to_graph_tree(component, graphviz.Digraph(format="svg"), list(request))
    nodes, edges = read(tree)
    require(set(nodes) == names, "nodes {} instead of {}", sorted(nodes), sorted(names))
    require(edges == data_edges, "edges {} instead of {}", sorted(edges), sorted(data_edges))
    tree, _ = apt.utils.add_plugins_to_graph_tree(
        component, graphviz.Digraph(format="svg"), list(request), with_data_names=with_data_names
    )
    nodes, edges = read(tree)
    require(set(nodes) == set(plugins), "plugins {} instead of {}", sorted(nodes), sorted(plugins))
    require(edges == plugin_edges, "edges of plugins {} instead of {}", sorted(edges), sorted(plugin_edges))
    for cls, (inputs, outputs) in plugins.items():
        text = " ".join(nodes[cls])
        words = set(re.findall(r"\w+", text))
        require(cls in words, "the node of {} shows {}", cls, nodes[cls])
        listed = set(inputs) | set(outputs)
        if with_data_names:
            require(words == listed | {cls}, "the node of {} shows {} instead of {}", cls, nodes[cls], sorted(listed))
        else:
            require(words == {cls}, "the node of {} shows {}", cls, nodes[cls])
    rec.checked(4 + len(plugins))
    return len(plugins)


def graph(case, rec):
    kit.reset()
    spec = case["spec"]
    prefix = kit.unique("Graph")
    classes = graphs.build(spec, prefix)
    component = kit.make_component(kit.unique("Graphed"), classes, register=False)(llh_name=kit.unique("llh"))
    registry = {}
    for p in spec["plugins"]:
        for name in p["provides"]:
            registry[name] = (f"{prefix}P{p['id']}", p["depends_on"], p["provides"])
    n = compare(component, registry, case["request"], case["with_data_names"], rec)
    rec.nontrivial(n >= 3 or n < len(spec["plugins"]))
    rec.label(f"{min(n, 6)} plugins", "data names" if case["with_data_names"] else "plain")


def builtin(case, rec):
    kit.reset()
    component = shipped.component_class(case["kind"])(llh_name=kit.unique("llh"))
    registry = {k: (v.__name__, list(v.depends_on), list(v.provides)) for k, v in component._plugin_class_registry.items()}
    n = compare(component, registry, case["request"], True, rec)
    rec.nontrivial(n >= 3)


PARTS = {"graph": graph, "builtin": builtin}


def run(check, only=None):
    if not shutil.which("dot"):
        raise HarnessError("the program dot is needed to draw graphs")
    check.search("graph", cases(), graph, check.n(200, 4000))
    cases_ = [{"kind": k, "request": ["energy", "light_yield"] if k in shipped.YIELDS else r} for k in shipped.SIM + shipped.YIELDS for r in (["cs1", "cs2", "eff"], ["cs2"])]
    check.sweep("builtin", cases_, builtin)
