"""One module per group of properties; ``CHECKS`` maps a property to its check."""
