"""Registry of the checks."""
from . import mir, effects, props, blind, algebra, batch, mapping, term, report

TRUST = ('Trusts rustc for MIR construction and call resolution, and the hand-confirmed lists of '
         'what the external functions do. ')

REGISTRY = {}


def reg(prop, fn, technique, note):
    REGISTRY[prop] = {'fn': fn, 'technique': technique, 'note': note}


def graph(f):
    def go(crate, r, tier):
        f(crate, r, tier)
    return go


reg('C08', graph(effects.c08), 'effect analysis over the resolved MIR call graph',
    'Every function a verifier can reach is scanned for calls and statics outside a list of pure '
    'external functions; the argument holds for all inputs. ' + TRUST)
reg('C09', graph(effects.c09), 'effect analysis over the resolved MIR call graph',
    'Every function an entry point can reach is scanned for output operations and global state; '
    'the argument holds for all inputs. ' + TRUST)
INTERP = ('The entry points are interpreted abstractly over MIR for arguments of every size (loops '
          'generalised over a symbolic iteration, no unrolling bound, values as sets of '
          'dependences). ' + TRUST)
reg('C01', props.c01, 'abstract interpretation over MIR; language equality of the automata of '
    'transcript operations',
    'The language of labelled transcript operations of each prover equals that of its verifier. '
    + INTERP)
reg('C02', props.c02, 'abstract interpretation over MIR; must-absorbed dataflow at every challenge',
    'At each challenge of each verifier, every element of every message sent before it has been '
    'absorbed; with C01 this carries over to the provers. ' + INTERP)
reg('C03', props.c03, 'abstract interpretation over MIR; must-absorbed dataflow at every challenge',
    'At each challenge the parts of the statement it has to bind were absorbed, or are forced '
    'by a deciding equality to equal what was absorbed. ' + INTERP)
reg('C04', props.c04, 'abstract interpretation over MIR; must-dependence of accepting returns',
    'On every accepting return, the equalities known to hold involve every element of every '
    'statement component. ' + INTERP)
reg('C05', props.c05, 'abstract interpretation over MIR; must-dependence of accepting returns',
    'On every accepting return, the equalities known to hold involve every leaf of the proof '
    'type. ' + INTERP)
reg('C06', props.c06, 'abstract interpretation over MIR; facts known at accepting returns',
    'On every accepting return, one equality of whole group elements is known to hold that '
    'compares all responses and the whole basis with the target. ' + INTERP)

reg('C07', props.c07, 'abstract interpretation over MIR; control and data dependence of panics',
    'Every panic, assertion, index, slice split and overflow a verifier can reach is shown not to '
    'depend on the proof, except where comparisons on the way there exclude it. ' + INTERP)
reg('C10', blind.c10, 'abstract interpretation over MIR; blinding classes of emitted values',
    'Every value a zero-knowledge prover absorbs, returns or hands to a sub-protocol is shown to '
    'have a random summand wherever it depends on the witness. ' + INTERP)
reg('C11', blind.c11, 'effect analysis of the call graph; abstract interpretation of draws and '
    'of the cells they are stored in',
    'Every draw is traced from its generator to the elements it blinds. ' + INTERP)

reg('C12', algebra.c12, 'who-may-call analysis over the MIR call graph; abstract interpretation '
    'of squeezed bytes',
    'Every squeezed byte buffer is followed to the scalar made of it and from there to the '
    'deciding equality. ' + INTERP)

reg('C14', algebra.c14, 'abstract interpretation over MIR of each function for operands of every '
    'size; length facts known at its return',
    'Every return of every function that combines two operands is shown to come after a '
    'comparison of their lengths, with all elements paired by position. ' + INTERP)

reg('C13', batch.c13, 'abstract interpretation over MIR; exponents of challenges as linear '
    'functions of matrix positions',
    'Each multiplication of a matrix entry by a challenge is found, and the exponent of the '
    'challenge shown to be a different one for each matrix. ' + INTERP)

reg('C15', mapping.c15, 'abstract interpretation over MIR; linear bounds and membership facts of '
    'assigned positions',
    'Every position stored in a mapping is shown to be the position of a filtered range inside '
    'the free part of the witness, and the refusals to come before every return. ' + INTERP)

reg('C16', batch.c16, 'abstract interpretation over MIR; shape of the added matrices as sparse '
    'collections over positions of the mapping',
    'The batch of equations handed to the sub-protocol is shown to have one more matrix for each '
    'commitment index of the mapping, with the coefficients the argument needs. ' + INTERP)

reg('C17', term.c17, 'abstract interpretation over MIR; ranking of loops by iterators, lengths and '
    'linear sizes, guards that nothing moves',
    'Every way through every loop an entry point can reach is shown to move an iterator, a length '
    'or a size towards an end, or reported if its conditions stay true; ways of which the '
    'conditions are only partly known are counted as not decided. ' + INTERP)

reg('C18', batch.c18, 'abstract interpretation over MIR; sums of products of challenges and '
    'generators handed to the sub-protocol',
    'The first generator handed on is shown to be the first generator times a power of a '
    'challenge drawn after the witness commitment was absorbed, on every path. ' + INTERP)

reg('C19', batch.c19, 'abstract interpretation over MIR; pairing of positions in products, '
    'dependence of the returned commitment',
    'Each message is shown to be multiplied with the generator of its own index, and each '
    'returned commitment to depend on all messages and the blinding. ' + INTERP)

reg('C20', algebra.c20, 'abstract interpretation over MIR; facts known where a proof is returned',
    'Every return of a proof is shown to come after the comparisons that refuse vectors that do '
    'not fit. ' + INTERP)

reg('C21', mapping.c21, 'abstract interpretation over MIR; values recorded per message as symbolic '
    'elements and positions of the index sets',
    'Every value stored in a mapping is shown to be the index, the position of the index set or the '
    'running number of its message, and the sets to be taken in completely. ' + INTERP)


def run_one(prop, tier):
    crates, key = mir.load_all()
    r = report.Result()
    for crate in crates:
        REGISTRY[prop]['fn'](crate, r, tier)
    r.cov['builds_analysed'] = len(crates)
    return r, sum(1 for _ in crates[0].bodies()), key


def main(prop):
    if prop not in REGISTRY:
        print('unknown property', prop)
        return 2
    return report.run(prop, run_one, REGISTRY[prop]['technique'])
