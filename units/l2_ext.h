/* externals an L2 protocol file may reference but which its unit does not use */
