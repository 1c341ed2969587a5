"""amv - a deductive contract verifier for the real-valued C code of amino."""
