skipmod lobpcg
