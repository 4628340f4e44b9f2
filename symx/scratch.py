"""Record classes built by harnesses live here, so that pickle finds them."""
