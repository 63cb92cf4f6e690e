#!/bin/sh
# tools/run.sh PROP [...]: verbose run without TF noise
cd /verif; for p in "$@"; do ./check.sh $p -v $OPT 2>&1 | grep -v -e port.cc -e cudart -e absl::Init -e UserWarning -e "tensor = jnp.ones" -e "return lax_numpy.astype" | cut -c1-${W:-420}; done
