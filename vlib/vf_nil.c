/* no further sources */
