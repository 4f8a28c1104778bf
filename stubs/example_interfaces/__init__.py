"""Stand-in for the ROS package example_interfaces (not installed in this sandbox)."""
