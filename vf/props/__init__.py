"""Runtime-monitoring machinery for bwhmather/verktyg."""
