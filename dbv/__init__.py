"""Runtime-monitoring framework for python-databind."""
