"""Static analysis framework for pymanopt: abstract interpretation of the
source of /repo over a value-number (Herbrand term) domain."""
