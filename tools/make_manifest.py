"""Writes MANIFEST.json from the table below. A property is claimed when mc/checks/<id>.py exists."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"

# id: (level, technique, level note)
T = {}


def add(pid, level, technique, note):
    T[pid] = (level, technique, note)


add("C01", MC, "explicit-state search over operation histories on the real Parameter object against a dictionary model",
    "Every operation sequence up to the depth over the alphabet; numpy's generator is trusted to be deterministic given a seed.")
add("C02", EX, "exhaustive enumeration of prior configurations x value lattice against closed-form densities",
    "Complete over the stated lattice; says nothing about values between lattice points.")
add("C03", MC, "exhaustive enumeration of call histories of the posterior over scripted likelihood outcomes",
    "The likelihoods are stand-ins whose outcome the explorer chooses; key generation is observed through the keys they receive.")
add("C04", MC, "exhaustive enumeration of plugin graphs, registration orders, requests and deduction histories with symbolic data",
    "Every graph of the stated families is compiled by the real code and run on symbolic terms with jit disabled.")
add("C05", EX, "complete key-flow tracing of every sampler, plugin and component plus exhaustive small programs",
    "Keys are traced through the jaxpr of the code; jax.random primitives are trusted to derive independent streams.")
add("C06", EX, "exhaustive enumeration of samples x binnings x weights against a per-event reference",
    "Complete for the lattices stated; float32 rounding outside the alphabet is not covered.")
add("C07", EX, "exhaustive enumeration of samples x efficiency x binning x normalisation x histories against a reference model",
    "Stand-in plugins provide chosen events; the component code is the real one.")
add("C08", EX, "exhaustive enumeration of component expectations x data against the Poisson reference",
    "Stand-in plugins provide chosen events; numpy log/sum are trusted.")
add("C09", EX, "exhaustive enumeration of maps x query lattice x methods against reference interpolators",
    "Complete for the stated small grids, including nodes, edges and outside points.")
add("C10", EX, "exhaustive enumeration of map file contents against an accept/reject reference",
    "Complete for the stated alphabets of file contents.")
add("C11", MC, "explicit-state search over set/build/clear histories against a dictionary model",
    "Every history up to the depth over the stated operations.")
add("C12", MC, "exhaustive enumeration of settings, build orders and query values against a reference",
    "Complete over the stated setting forms.")
add("C13", EX, "exhaustive pairwise comparison of configurations that differ in one ingredient, and all build orders",
    "Hash collisions are trusted not to happen.")
add("C14", MC, "exhaustive enumeration of environment answers (all subsets of places containing the file)",
    "Package directory, auxiliary package and remote store are stand-ins or scratch folders.")
add("C15", FE, "exhaustive fault injection at every posterior evaluation of every fit/continue history",
    "The posterior is a stand-in that is cheap and deterministic; emcee and h5py are trusted; kill of the process inside an HDF5 write is not modelled.")
add("C16", MC, "explicit-state search over fit/continue/summarise/restore histories against a chain model",
    "emcee and h5py are trusted; chains are short.")
add("C17", EX, "exhaustive enumeration of an instruction grammar against a wiring model",
    "Components are stand-ins with chosen parameters; complete over the grammar.")
add("C18", MC, "explicit-state search over registration histories against a dictionary model",
    "Complete up to the depth over the stated alphabet.")
add("C19", EX, "exhaustive enumeration of small data sets x binning settings against a reference",
    "The equal-probability contract is checked for distinct values; GOFevaluation is trusted for ties.")
add("C20", MC, "exhaustive enumeration of efficiency patterns x repetitions against the sequence of single simulations",
    "Stand-in plugins; complete over the stated alphabet.")
add("C21", EX, "exhaustive enumeration of a physical lattice for every built-in plugin, checking invariants",
    "A finite set of keys is used where plugins draw, so distribution tails are only covered by what these keys produce.")
add("C22", EX, "exhaustive enumeration of sampler arguments, and of quantile cells of the underlying randomness",
    "Distributions are decided by pushing an exhaustive grid of uniform/normal quantiles through the sampler; jax.random primitives are trusted.")
add("C23", EX, "exhaustive enumeration of types x predicted points x efficiencies against closed-form densities",
    "Stand-in plugins provide the predicted points.")
add("C24", EX, "exhaustive enumeration of small chains and map assignments against references",
    "Figures are inspected through the matplotlib artists, not pixels.")
add("C25", MC, "exhaustive enumeration of plugin graphs with a controlled clock against a reference trace",
    "Time is a stand-in the explorer controls.")
add("C26", MC, "explicit-state search over deduce/compile/run/clear histories against a namespace model",
    "Complete up to the depth over the stated alphabet.")
add("C27", MC, "explicit-state search over set/build/show/clear histories against a usage model",
    "Complete up to the depth over the stated alphabet.")
add("C28", EX, "exhaustive enumeration of a fine grid of fractions",
    "Checks the value handed to the backend, not what a GPU driver makes of it.")
add("C29", MC, "exhaustive enumeration of plugin declarations, option hierarchies and copy histories, each executed by the real code",
    "Every declaration of the stated alphabet; plugins with more than three inputs are covered by C04 only.")
add("C30", MC, "exhaustive enumeration of plugin graphs, histories and histograms; what is shown is compared with an execution trace",
    "The drawing backend of graphs is a recorder; histograms are judged by the drawn rectangles and colours.")

add("C31", EX, "exhaustive enumeration of bundled components, options, parameters and files, executed by the real code",
    "The bundled files are dummies of the real ones; maps have no width, so scaling parameters are only checked not to reach other likelihoods.")


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for pid in ids:
        level, technique, note = T[pid]
        if os.path.exists(os.path.join(HERE, "mc", "checks", pid.lower() + ".py")):
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"./check.sh {pid} quick",
                    "thorough_cmd": f"./check.sh {pid} thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": technique,
                    "level": level,
                    "level_note": note,
                }
            )
        else:
            na.append({"property": pid, "reason": "model checking applies, but its check is not built yet"})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
