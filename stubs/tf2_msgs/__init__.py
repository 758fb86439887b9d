"""Stand-in for the ROS package tf2_msgs."""
