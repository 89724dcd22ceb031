NA={
'C29':'The stated error rates are averages over random inputs and hash values: no single execution violates them, so there is no assertion for a solver to decide within bounds.',
}
TECH={}
NOTE={}
