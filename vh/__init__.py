"""Shared harness for the noWorkflow property checks (see DESIGN.md)."""
