"""Stand-in for the few scikit-learn names the package imports (scikit-learn itself is not installed here)."""
